// P10: editing, merging, collapsing and cloning animation curves, and clips.
#include <cmath>
#include <memory>
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDEntityInstance.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDAnimationClipTools.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationCurveTools.h"
#include "FCDocument/FCDAnimationMultiCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDTransform.h"
#include "mc.h"
const char* mc::property = "P10"; const char* mc::level = "model_checking";
const char* mc::rule = "every edit sequence of a curve up to a bound, every clone, every pair and triple of small curves merged, and every sequence of clip operations up to a bound; a case is non-trivial when keys, values or registrations were compared with the model";
std::vector<std::string> mc::assumptions = { "merged curves have their keys at distinct times (or the clean-up of equal times is left to the caller)", "a clip that was cloned with a curve belongs to the caller", "multi-dimensional curves of TCB keys are compared by their keys: their evaluation is not implemented" };
using std::string; using std::vector;
static FUObjectRef<FCDocument>* kept; static FCDAnimation* anim;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); kept = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); anim = (*kept)->GetAnimationLibrary()->AddEntity(); }, true);
namespace {
enum { STEP = FUDaeInterpolation::STEP, LINEAR = FUDaeInterpolation::LINEAR, BEZIER = FUDaeInterpolation::BEZIER, TCB = FUDaeInterpolation::TCB };
typedef FUDaeInterpolation::Interpolation Ip; struct Rel { FUObject* o; ~Rel() { o->Release(); } };
struct Key { int ip; float x = 0, y = 0, d[5] = { 0, 0, 0, 0, 0 }; };
static void put(FCDAnimationKey* k, const Key& e) { k->input = e.x; k->output = e.y; if (e.ip == BEZIER) { FCDAnimationKeyBezier* z = (FCDAnimationKeyBezier*) k; z->inTangent = FMVector2(e.d[0], e.d[1]); z->outTangent = FMVector2(e.d[2], e.d[3]); } if (e.ip == TCB) { FCDAnimationKeyTCB* z = (FCDAnimationKeyTCB*) k; z->tension = e.d[0]; z->continuity = e.d[1]; z->bias = e.d[2]; z->easeIn = e.d[3]; z->easeOut = e.d[4]; } }
static bool same(const FCDAnimationKey* k, const Key& e) { if (k->interpolation != (uint32) e.ip || k->input != e.x || k->output != e.y) return false; if (e.ip == BEZIER) { const FCDAnimationKeyBezier* z = (const FCDAnimationKeyBezier*) k; return z->inTangent.x == e.d[0] && z->inTangent.y == e.d[1] && z->outTangent.x == e.d[2] && z->outTangent.y == e.d[3]; } if (e.ip == TCB) { const FCDAnimationKeyTCB* z = (const FCDAnimationKeyTCB*) k; return z->tension == e.d[0] && z->continuity == e.d[1] && z->bias == e.d[2] && z->easeIn == e.d[3] && z->easeOut == e.d[4]; } return true; }
static string show(const vector<Key>& m) { string s; for (auto& e : m) s += mc::strf("%s(%g %g %s)", s.empty() ? "" : " ", e.x, e.y, e.ip == STEP ? "step" : e.ip == LINEAR ? "linear" : e.ip == BEZIER ? "bezier" : "tcb"); return s; }
static void equal(mc::Ctx& c, const FCDAnimationCurve* k, const vector<Key>& m, const char* what) { CHECK(k->GetKeyCount() == m.size(), mc::strf("%s:count", what), "%d keys, should be %d", (int) k->GetKeyCount(), (int) m.size()); for (size_t i = 0; i < m.size(); ++i) CHECK(same(k->GetKey(i), m[i]) && k->GetKeys()[i] == k->GetKey(i), mc::strf("%s:key", what), "key %d is at %g with %g, should be at %g with %g of %s", (int) i, k->GetKey(i)->input, k->GetKey(i)->output, m[i].x, m[i].y, show(m).c_str()); }
static FCDAnimationCurve* build(const vector<Key>& m, FCDAnimationChannel* ch = NULL) { FCDAnimationCurve* k = ch ? ch->AddCurve() : new FCDAnimationCurve(*kept, NULL); for (auto& e : m) put(k->AddKey((Ip) e.ip), e); return k; }
static const int KINDS[] = { STEP, LINEAR, BEZIER, TCB };
static float twice(float v) { return 2 * v; } static float plus(float v) { return v + 10; }
struct Minus : FCDConversionFunctor { virtual float operator()(float v) { return 1 - v; } };
struct Watch : FUTracker { int died = 0; FUTrackable* o = NULL; void watch(FUTrackable* x) { o = x; TrackObject(x); } ~Watch() { if (o && !died) UntrackObject(o); } virtual void OnObjectReleased(FUTrackable*) { ++died; } };
}
// ---------------------------------------------------------------- edits
SPACE(edits, 4)
{
	FCDAnimationCurve* k = new FCDAnimationCurve(*kept, NULL); Rel rel{ k }; vector<Key> m; vector<FCDAnimationKey*> id; float next = 1; int steps = c.range(1, c.deep ? 4 : 3); auto fill = [&](Key& e) { e.y = next += 1; for (int i = 0; i < 5; ++i) e.d[i] = next + 0.125f * (float) (i + 1); };
	for (int s = 0; s < steps; ++s)
	{
		switch (c.choose(8))
		{
		case 0: { Key e; e.ip = KINDS[c.choose(4)]; c.op("append %d", e.ip); fill(e); e.x = m.empty() ? 0 : m.back().x + 1; FCDAnimationKey* x = k->AddKey((Ip) e.ip); CHECK(x != NULL, "edit:append", "."); put(x, e); m.push_back(e); id.push_back(x); break; }
		case 1: { Key e; e.ip = KINDS[c.choose(c.deep ? 2 : 4)]; e.x = (float) c.choose(5) - 1; bool out = c.flag(); c.op("insert %d at %g", e.ip, e.x); fill(e); size_t at = 77; FCDAnimationKey* x = out ? k->AddKey((Ip) e.ip, e.x, at) : k->AddKey((Ip) e.ip, e.x); CHECK(x != NULL && x->input == e.x, "edit:insert", "."); put(x, e); size_t p = 0; while (p < m.size() && m[p].x <= e.x) ++p; if (out) CHECK(at == p, "edit:index", "%d, should be %d", (int) at, (int) p); m.insert(m.begin() + p, e); id.insert(id.begin() + p, x); break; }
		case 2: { size_t i = (size_t) c.choose((int) m.size() + 1); c.op("delete %d", (int) i); if (i == m.size()) { FCDAnimationKey other; CHECK(!k->DeleteKey(&other) && !k->DeleteKey(NULL), "edit:delete", "."); } else { CHECK(k->DeleteKey(id[i]), "edit:delete", "."); m.erase(m.begin() + i); id.erase(id.begin() + i); } break; }
		case 3: { size_t n = (size_t) c.choose((int) m.size() + 3); int ip = KINDS[c.choose(4)]; c.op("set count %d of %d", (int) n, ip); k->SetKeyCount(n, (Ip) ip); while (m.size() > n) { m.pop_back(); id.pop_back(); } CHECK(k->GetKeyCount() == n, "edit:set-count", "."); while (m.size() < n) { Key e; e.ip = ip; fill(e); e.x = m.empty() ? 0 : m.back().x + 1; FCDAnimationKey* x = k->GetKey(m.size()); CHECK(x->interpolation == (uint32) ip, "edit:set-count", "."); put(x, e); m.push_back(e); id.push_back(x); } break; }
		case 4: { bool v = c.flag(), t = c.flag(); c.op("convert values %d %d", v, t); k->ConvertValues(v ? twice : (FCDConversionFunction) NULL, t ? plus : (FCDConversionFunction) NULL); for (auto& e : m) { if (v) e.y *= 2; if (t && e.ip == BEZIER) { e.d[1] += 10; e.d[3] += 10; } } break; }
		case 5: { bool v = c.flag(), t = c.flag(); c.op("convert inputs %d %d", v, t); k->ConvertInputs(v ? twice : (FCDConversionFunction) NULL, t ? plus : (FCDConversionFunction) NULL); for (auto& e : m) { if (v) e.x *= 2; if (t && e.ip == BEZIER) { e.d[0] += 10; e.d[2] += 10; } } break; }
		case 6: { FCDConversionScaleFunctor v(3); Minus t; bool both = c.flag(); c.op("convert values with functors"); k->ConvertValues(&v, both ? &t : (FCDConversionFunctor*) NULL); for (auto& e : m) { e.y *= 3; if (both && e.ip == BEZIER) { e.d[1] = 1 - e.d[1]; e.d[3] = 1 - e.d[3]; } } break; }
		default: { FCDConversionOffsetFunctor v(5); Minus t; bool both = c.flag(); c.op("convert inputs with functors"); k->ConvertInputs(&v, both ? &t : (FCDConversionFunctor*) NULL); for (auto& e : m) { e.x += 5; if (both && e.ip == BEZIER) { e.d[0] = 1 - e.d[0]; e.d[2] = 1 - e.d[2]; } } break; }
		}
		equal(c, k, m, "edit"); for (size_t i = 0; i < id.size(); ++i) CHECK(k->GetKey(i) == id[i], "edit:identity", "key %d", (int) i);
	}
	string s; for (auto& e : m) s += (char) ('a' + e.ip); c.state(s); c.checkAsserts("the edits"); c.nontrivial();
}
SPACE(multiedits, 3)
{
	uint32 dim = (uint32) c.range(1, 3); FCDAnimationMultiCurve* k = new FCDAnimationMultiCurve(*kept, dim); Rel rel{ k }; vector<Key> m; float next = 1; int steps = c.range(1, c.deep ? 4 : 3); auto value = [&](FCDAnimationMKey* x, const Key& e, bool set) { bool ok = x->GetDimension() == dim && x->interpolation == (uint32) e.ip; if (set) x->input = e.x; else ok = ok && x->input == e.x; auto f = [&](float& v, float w) { if (set) v = w; else ok = ok && v == w; }; for (uint32 j = 0; j < dim; ++j) { float o = 100.0f * (float) j; f(x->output[j], e.y + o); if (e.ip == BEZIER) { FCDAnimationMKeyBezier* z = (FCDAnimationMKeyBezier*) x; f(z->inTangent[j].x, e.d[0] + o); f(z->inTangent[j].y, e.d[1] + o); f(z->outTangent[j].x, e.d[2] + o); f(z->outTangent[j].y, e.d[3] + o); } if (e.ip == TCB) { FCDAnimationMKeyTCB* z = (FCDAnimationMKeyTCB*) x; f(z->tension[j], e.d[0] + o); f(z->continuity[j], e.d[1] + o); f(z->bias[j], e.d[2] + o); f(z->easeIn[j], e.d[3] + o); f(z->easeOut[j], e.d[4] + o); } } return ok; };
	for (int s = 0; s < steps; ++s)
	{
		int ip = KINDS[c.choose(4)]; auto add = [&](FCDAnimationMKey* x) { Key e; e.ip = ip; e.y = next += 1; for (int i = 0; i < 5; ++i) e.d[i] = next + 0.125f * (float) (i + 1); e.x = (float) m.size(); value(x, e, true); m.push_back(e); }; if (c.flag()) { c.op("append %d", ip); add(k->AddKey((Ip) ip)); } else { size_t n = (size_t) c.choose((int) m.size() + 3); c.op("set count %d of %d", (int) n, ip); k->SetKeyCount(n, (Ip) ip); while (m.size() > n) m.pop_back(); CHECK(k->GetKeyCount() == n, "multi:set-count", "."); while (m.size() < n) add(k->GetKeys()[m.size()]); } CHECK(k->GetKeyCount() == m.size(), "multi:count", "."); for (size_t i = 0; i < m.size(); ++i) CHECK(value(k->GetKeys()[i], m[i], false), "multi:key", "key %d", (int) i);
	}
	c.state((int) m.size()); c.checkAsserts("the edits"); c.nontrivial();
}
// ---------------------------------------------------------------- clones
SPACE(clones, 3)
{
	FCDAnimationChannel* ch = anim->AddChannel(); FCDAnimationChannel* ch2 = anim->AddChannel(); FCDSceneNode* n = new FCDSceneNode(*kept); Rel r1{ ch }, r2{ ch2 }, r3{ n }; FCDAnimated* driver = ((FCDTTranslation*) n->AddTransform(FCDTransform::TRANSLATION))->GetAnimated(); static const FUDaeInfinity::Infinity INF[] = { FUDaeInfinity::CONSTANT, FUDaeInfinity::LINEAR, FUDaeInfinity::CYCLE, FUDaeInfinity::CYCLE_RELATIVE, FUDaeInfinity::OSCILLATE };
	int count = c.range(0, c.deep ? 4 : 3); vector<Key> m; for (int i = 0; i < count; ++i) { Key e; e.ip = KINDS[c.choose(4)]; e.x = (float) i; e.y = 5.0f - (float) i; for (int j = 0; j < 5; ++j) e.d[j] = (float) (i * 5 + j) * 0.25f - 1; m.push_back(e); } FCDAnimationCurve* k = build(m, ch); int pre = c.choose(5), post = (pre * 2 + 1) % 5; k->SetPreInfinity(INF[pre]); k->SetPostInfinity(INF[post]); k->SetTargetElement(3); k->SetTargetQualifier(".Q"); bool driven = c.flag(); if (driven) k->SetDriver(driver, 2);
	int into = c.choose(3); bool clips = c.flag(); vector<Key> old; for (int i = 0; i < 2; ++i) { Key e; e.ip = i ? BEZIER : STEP; old.push_back(e); } c.op("clone of %s %s%s", show(m).c_str(), into == 0 ? "into a new curve" : into == 1 ? "into an empty curve" : "into a curve with keys", driven ? ", with a driver" : ""); FCDAnimationCurve* target = into == 0 ? NULL : into == 1 ? ch2->AddCurve() : build(old, ch2); FCDAnimationCurve* q = k->Clone(target, clips); CHECK(q != NULL && (target == NULL || q == target), "clone:target", "."); std::unique_ptr<Rel> own(into == 0 ? new Rel{ q } : NULL);
	equal(c, q, m, "clone"); FCDAnimated* d = NULL; int32 di = 0; q->GetDriver(d, di); CHECK(q->GetPreInfinity() == INF[pre] && q->GetPostInfinity() == INF[post] && q->GetTargetElement() == 3 && q->GetTargetQualifier() == ".Q" && q->GetClipCount() == 0, "clone:settings", "."); CHECK(q->HasDriver() == driven && (d == driver) == driven && q->GetDriverPtr() == d && (!driven || di == 2) && q->GetDriverIndex() == di, "clone:driver", ".");
	switch (c.choose(4)) { case 0: if (!m.empty()) { c.op("change the copy"); q->GetKey(0)->output = 99; q->ConvertValues(twice, plus); q->ConvertInputs(twice, plus); q->SetKeyCount(1, FUDaeInterpolation::LINEAR); } q->SetPreInfinity(FUDaeInfinity::LINEAR); equal(c, k, m, "original"); CHECK(k->GetPreInfinity() == INF[pre], "original:settings", "."); break; case 1: c.op("release the copy"); if (own) own.reset(); else q->Release(); equal(c, k, m, "original"); break; case 2: c.op("release the original"); k->Release(); equal(c, q, m, "copy"); break; default: c.op("release the driver"); n->GetTransform(0)->Release(); CHECK(!k->HasDriver() && !q->HasDriver(), "clone:driver", "the driver is dead"); break; }
	c.state(count); c.checkAsserts("the clone"); c.nontrivial();
}
// Channels, animations and animated values.
SPACE(animateds, 3)
{
	FCDAnimation* a = anim->AddChild(); Rel r{ a }; a->SetName(FC("source")); FCDSceneNode* n = new FCDSceneNode(*kept); Rel r3{ n }; FCDTTranslation* t = (FCDTTranslation*) n->AddTransform(FCDTransform::TRANSLATION), * u = (FCDTTranslation*) n->AddTransform(FCDTransform::TRANSLATION); FCDTScale* sc = (FCDTScale*) n->AddTransform(FCDTransform::SCALE); int channels = c.range(1, 2); vector<vector<vector<Key>>> m; vector<vector<FCDAnimationCurve*>> ks;
	for (int i = 0; i < channels; ++i) { FCDAnimationChannel* ch = a->AddChannel(); m.emplace_back(); ks.emplace_back(); int n = c.range(0, 2); for (int j = 0; j < n; ++j) { vector<Key> keys; int q = c.range(0, 2); for (int l = 0; l < q; ++l) { Key e; e.ip = KINDS[(i + j + l) % 4]; e.x = (float) l; e.y = (float) (i * 10 + j); keys.push_back(e); } ks.back().push_back(build(keys, ch)); m.back().push_back(keys); } } int way = c.choose(3); auto verify = [&](const FCDAnimation* x, const char* what) { CHECK(x->GetChannelCount() == (size_t) channels, mc::strf("%s:channels", what), "%d", (int) x->GetChannelCount()); for (int i = 0; i < channels; ++i) { CHECK(x->GetChannel(i)->GetCurveCount() == m[i].size(), mc::strf("%s:curves", what), "%d of channel %d", (int) x->GetChannel(i)->GetCurveCount(), i); for (size_t j = 0; j < m[i].size(); ++j) { equal(c, x->GetChannel(i)->GetCurve(j), m[i][j], what); CHECK(x->GetChannel(i)->GetCurve(j)->GetParent() == x->GetChannel(i), mc::strf("%s:parent", what), "."); } CHECK(x->GetChannel(i)->GetParent() == x, mc::strf("%s:parent", what), "channel %d", i); } };
	if (way == 0) { c.op("clone the animation"); FCDAnimation* q = (FCDAnimation*) a->Clone(NULL, true); Rel r4{ q }; verify(q, "animation"); CHECK(q->GetName() == FC("source"), "animation:name", "."); if (!ks[0].empty()) ks[0][0]->Release(), m[0].erase(m[0].begin()); else a->GetChannel(0)->AddCurve(), m[0].insert(m[0].begin(), vector<Key>()); verify(a, "source"); }
	else
	{
		vector<vector<FCDAnimationCurve*>> on(3); for (auto& l : ks) for (auto k : l) { size_t i = (size_t) c.choose(3); t->GetAnimated()->AddCurve(i, k); on[i].push_back(k); } auto lists = [&](FCDAnimated* x, const char* what, bool same) { for (size_t i = 0; i < 3 && i < x->GetValueCount(); ++i) { CHECK(x->GetCurveCount(i) == on[i].size(), mc::strf("%s:curves", what), "%d of %d, should be %d", (int) x->GetCurveCount(i), (int) i, (int) on[i].size()); for (size_t j = 0; j < on[i].size(); ++j) CHECK((x->GetCurve(i, j) == on[i][j]) == same, mc::strf("%s:curve", what), "%d of %d", (int) j, (int) i); } };
		if (way == 1) { c.op("share the curves"); FCDAnimated* x = u->GetAnimated(); float* v0 = x->GetValue(0); t->GetAnimated()->Clone(x); lists(x, "shared", true); lists(t->GetAnimated(), "kept", true); CHECK(x->GetValue(0) == v0 && x->GetTargetObject() == u, "shared:target", "."); sc->GetAnimated(); t->GetAnimated()->Clone((FCDAnimated*) NULL); for (size_t i = 0; i < 3; ++i) if (!on[i].empty()) { on[i][0]->Release(); on[i].erase(on[i].begin()); lists(x, "shared", true); lists(t->GetAnimated(), "kept", true); break; } t->Release(); lists(x, "shared", true); }
		else { c.op("copy the curves"); FCDAnimated* x = t->GetAnimated()->Clone(*kept); Rel r5{ x }; lists(x, "copied", false); CHECK(x->GetValueCount() == 3 && x->GetQualifier(1) == ".Y", "copied:settings", "."); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < on[i].size(); ++j) { FCDAnimationCurve* k = x->GetCurve(i, j), * o = on[i][j]; CHECK(k->GetKeyCount() == o->GetKeyCount() && k->GetParent() == o->GetParent(), "copied:keys", "."); for (size_t l = 0; l < k->GetKeyCount(); ++l) CHECK(k->GetKey(l)->output == o->GetKey(l)->output && k->GetKey(l) != o->GetKey(l), "copied:keys", "."); } lists(t->GetAnimated(), "kept", true); }
	}
	c.state(way); c.checkAsserts("the clone"); c.nontrivial();
}
// ---------------------------------------------------------------- merging
SPACE(merges, 4)
{
	int dims = c.range(1, c.deep ? 3 : 2); vector<vector<Key>> ms; FCDAnimationCurveConstList list; vector<std::unique_ptr<Rel>> own; static const float TIMES[] = { 0, 1, 1.5f, 3 }; vector<int> kinds; bool uniform = true, any = false, same_times = true; int subset0 = -1;
	for (int j = 0; j < dims; ++j)
	{
		int kind = c.choose(6); kinds.push_back(kind); vector<Key> m; if (kind == 5) { list.push_back(NULL); ms.push_back(m); c.note("none"); continue; } any = true; int subset = c.choose(c.deep && dims == 3 && j == 2 ? 8 : 16); if (subset0 < 0) subset0 = subset; if (subset != subset0) same_times = false;
		for (int i = 0; i < 4; ++i) if (subset & (1 << i)) { Key e; int n = (int) m.size(); e.ip = kind < 4 ? KINDS[kind] : KINDS[(n + j) % 3]; e.x = TIMES[i]; e.y = (float) ((i * 5 + j * 3) % 7) - 2; m.push_back(e); } for (size_t i = 0; i < m.size(); ++i) { float p = i ? m[i].x - m[i - 1].x : 1, q = i + 1 < m.size() ? m[i + 1].x - m[i].x : 1; if (m[i].ip == BEZIER) { m[i].d[0] = m[i].x - p / 3; m[i].d[1] = m[i].y - 0.5f; m[i].d[2] = m[i].x + q / 3; m[i].d[3] = m[i].y + 1; } else for (int d = 0; d < 5; ++d) m[i].d[d] = 0.125f * (float) (d + 1); } ms.push_back(m); FCDAnimationCurve* k = build(m); own.emplace_back(new Rel{ k }); k->SetTargetElement(j + 4); k->SetPreInfinity(j ? FUDaeInfinity::LINEAR : FUDaeInfinity::CONSTANT); k->SetPostInfinity(j ? FUDaeInfinity::LINEAR : FUDaeInfinity::CONSTANT); list.push_back(k); c.note("%s", show(m).c_str());
	}
	FloatList defaults; int given = c.range(0, dims); for (int i = 0; i < given; ++i) defaults.push_back(50.0f + (float) i); c.op("merge %d curves", dims); FCDAnimationMultiCurve* mc_ = FCDAnimationCurveTools::MergeCurves(list, defaults); if (!any) { CHECK(mc_ == NULL, "merge:nothing", "."); return; } CHECK(mc_ != NULL, "merge:nothing", "."); Rel rel{ mc_ };
	vector<float> times; for (auto& m : ms) for (auto& e : m) times.push_back(e.x); std::sort(times.begin(), times.end()); times.erase(std::unique(times.begin(), times.end()), times.end()); CHECK(mc_->GetDimension() == (uint32) dims && mc_->GetKeyCount() == times.size(), "merge:keys", "%d keys, should be %d", (int) mc_->GetKeyCount(), (int) times.size()); int first = 0; while (!list[first]) ++first; CHECK(mc_->GetTargetElement() == first + 4 && mc_->GetPreInfinity() == list[first]->GetPreInfinity() && mc_->GetPostInfinity() == list[first]->GetPostInfinity(), "merge:settings", ".");
	bool tcb = false; for (size_t i = 0; i < times.size(); ++i)
	{
		const FCDAnimationMKey* x = mc_->GetKeys()[i]; CHECK(x->input == times[i] && x->GetDimension() == (uint32) dims, "merge:time", "key %d is at %g", (int) i, x->input); bool all = true; int ip = -1; for (auto& m : ms) for (auto& e : m) if (e.x == times[i]) { if (ip >= 0 && ip != e.ip) all = false; ip = e.ip; } CHECK(x->interpolation == (uint32) (all ? ip : BEZIER), "merge:kind", "key %d is of kind %d", (int) i, (int) x->interpolation); tcb = tcb || x->interpolation == TCB; float out[3]; mc_->Evaluate(times[i], out);
		for (int j = 0; j < dims; ++j)
		{
			float want = ms[j].empty() ? (j < given ? defaults[j] : 0) : list[j]->Evaluate(times[i]); const Key* own = NULL; for (auto& e : ms[j]) if (e.x == times[i]) own = &e; if (own) want = own->y; CHECK(std::fabs(x->output[j] - want) < 1e-5f, "merge:value", "dimension %d at %g is %g, should be %g", j, times[i], x->output[j], want); CHECK(std::fabs(out[j] - want) < 0.02f, "merge:evaluate", "dimension %d at %g is %g, should be %g", j, times[i], out[j], want);
			float ps = (i ? times[i] - times[i - 1] : 1) / 3, ns = (i + 1 < times.size() ? times[i + 1] - times[i] : 1) / 3;
			if (x->interpolation == BEZIER) { const FCDAnimationMKeyBezier* z = (const FCDAnimationMKeyBezier*) x; CHECK(std::fabs(z->inTangent[j].x - (times[i] - ps)) < 1e-4f && std::fabs(z->outTangent[j].x - (times[i] + ns)) < 1e-4f, "merge:tangent-time", "dimension %d at %g", j, times[i]); if (own) { size_t q = (size_t) (own - &ms[j][0]); float op = (q ? own->x - ms[j][q - 1].x : 1) / 3, on = (q + 1 < ms[j].size() ? ms[j][q + 1].x - own->x : 1) / 3; float wi = own->ip == BEZIER ? own->y + (own->d[1] - own->y) / op * ps : own->y, wo = own->ip == BEZIER ? own->y + (own->d[3] - own->y) / on * ns : own->y; CHECK(std::fabs(z->inTangent[j].y - wi) < 1e-4f && std::fabs(z->outTangent[j].y - wo) < 1e-4f, "merge:tangent", "dimension %d at %g", j, times[i]); } else if (ms[j].empty()) CHECK(z->inTangent[j].y == want && z->outTangent[j].y == want, "merge:default-tangent", "."); else { CHECK(std::isfinite(z->inTangent[j].y) && std::isfinite(z->outTangent[j].y) && std::fabs((z->outTangent[j].y - want) * ps - (want - z->inTangent[j].y) * ns) < 1e-3f, "merge:smooth", "dimension %d at %g", j, times[i]); } }
			if (x->interpolation == TCB && own) { const FCDAnimationMKeyTCB* z = (const FCDAnimationMKeyTCB*) x; CHECK(z->tension[j] == own->d[0] && z->continuity[j] == own->d[1] && z->bias[j] == own->d[2] && z->easeIn[j] == own->d[3] && z->easeOut[j] == own->d[4], "merge:tcb", "."); }
		}
	}
	// With keys of one kind, the curves are the same everywhere.
	int kind = -1; for (int j = 0; j < dims; ++j) if (kinds[j] < 5 && !ms[j].empty()) { if (kind >= 0 && kind != kinds[j]) uniform = false; kind = kinds[j]; } if (kind == 3 || kind == 4 || kind < 0) uniform = false; if (kind == 2 && !same_times) uniform = false;
	if (uniform) for (size_t i = 0; i + 1 < times.size(); ++i) for (int q = 1; q < 8; ++q) { float t = times[i] + (times[i + 1] - times[i]) * (float) q / 8; float out[3]; mc_->Evaluate(t, out); for (int j = 0; j < dims; ++j) { if (ms[j].empty() || ((t < ms[j].front().x || t > ms[j].back().x) && j > 0)) continue; float want = list[j]->Evaluate(t); CHECK(std::fabs(out[j] - want) < 0.02f, "merge:between", "dimension %d at %g is %g, should be %g", j, t, out[j], want); } }
	c.state((int) times.size()); c.checkAsserts("the merge"); c.nontrivial();
}
// ---------------------------------------------------------------- collapsing
static float biggest(float* v, uint32 n) { float m = v[0]; for (uint32 i = 1; i < n; ++i) m = std::max(m, v[i]); return m; }
SPACE(collapses, 2)
{
	uint32 dim = (uint32) c.range(1, 4); int n = c.range(0, c.deep ? 5 : 4), way = c.choose(4); FCDAnimationMultiCurve* k = new FCDAnimationMultiCurve(*kept, dim); Rel rel{ k }; auto value = [](int i, uint32 j, int d) { return (float) ((i * 7 + (int) j * 5 + d * 3) % 11) - 4; }; vector<int> kinds; for (int i = 0; i < n; ++i) { int ip = KINDS[c.choose(4)]; kinds.push_back(ip); FCDAnimationMKey* x = k->AddKey((Ip) ip); x->input = (float) i; for (uint32 j = 0; j < dim; ++j) { x->output[j] = value(i, j, 0); if (ip == BEZIER) { FCDAnimationMKeyBezier* z = (FCDAnimationMKeyBezier*) x; z->inTangent[j] = FMVector2((float) i - 0.25f, value(i, j, 1)); z->outTangent[j] = FMVector2((float) i + 0.5f, value(i, j, 2)); } if (ip == TCB) { FCDAnimationMKeyTCB* z = (FCDAnimationMKeyTCB*) x; z->tension[j] = z->continuity[j] = z->bias[j] = 0.25f; z->easeIn[j] = z->easeOut[j] = 0; } } }
	c.op("collapse %d keys of %d dimensions", n, (int) dim); FCDCollapsingFunction fs[] = { NULL, FCDAnimationCurveTools::Average, FCDAnimationCurveTools::TakeFirst, biggest }; FCDAnimationCurve* o = FCDAnimationCurveTools::Collapse(k, fs[way]); if (n == 0) { CHECK(o == NULL, "collapse:empty", "."); return; } CHECK(o != NULL && o->GetKeyCount() == (size_t) n, "collapse:count", "."); Rel r2{ o }; auto want = [&](int i, int d) { double s = 0, m = -1e9; for (uint32 j = 0; j < dim; ++j) { s += value(i, j, d); m = std::max(m, (double) value(i, j, d)); } return way < 2 ? s / dim : way == 2 ? value(i, 0, d) : m; };
	for (int i = 0; i < n; ++i) { const FCDAnimationKey* x = o->GetKey(i); CHECK(x->input == (float) i && x->interpolation == (uint32) kinds[i], "collapse:key", "key %d", i); CHECK(std::fabs(x->output - want(i, 0)) < 1e-5, "collapse:value", "key %d is %g", i, x->output); if (kinds[i] == BEZIER) { const FCDAnimationKeyBezier* z = (const FCDAnimationKeyBezier*) x; CHECK(z->inTangent.x == (float) i - 0.25f && z->outTangent.x == (float) i + 0.5f, "collapse:tangent-time", "key %d: %g and %g", i, z->inTangent.x, z->outTangent.x); CHECK(std::fabs(z->inTangent.y - want(i, 1)) < 1e-5 && std::fabs(z->outTangent.y - want(i, 2)) < 1e-5, "collapse:tangent", "key %d", i); } if (kinds[i] == TCB) { const FCDAnimationKeyTCB* z = (const FCDAnimationKeyTCB*) x; CHECK(z->tension == 0.25f && z->continuity == 0.25f && z->bias == 0.25f && z->easeIn == 0 && z->easeOut == 0, "collapse:tcb", "key %d", i); } }
	c.state(n); c.checkAsserts("the collapse"); c.nontrivial();
}
// ---------------------------------------------------------------- clips
namespace {
struct Clips
{
	mc::Ctx& c; FUObjectRef<FCDocument> doc; FCDAnimationChannel* ch; struct Clip { FCDAnimationClip* p; float start, end; bool mine; bool live = true; vector<int> curves; }; struct Reg { int clip; float offset; }; struct Crv { FCDAnimationCurve* p; bool mine; bool live = true; vector<Reg> regs; float shift = 0, base = 0; int current = -1; }; vector<Clip> clips; vector<Crv> curves; vector<FUObject*> foreign;
	Clips(mc::Ctx& c_) : c(c_) { doc = FCollada::NewTopDocument(); ch = doc->GetAnimationLibrary()->AddEntity()->AddChannel(); }
	~Clips() { for (auto& k : curves) if (k.live && k.mine) k.p->Release(); for (auto& k : clips) if (k.live && k.mine) k.p->Release(); }
	void curve() { Crv k{ ch->AddCurve(), false }; for (int i = 0; i < 2; ++i) k.p->AddKey(FUDaeInterpolation::LINEAR)->input = (float) i; curves.push_back(k); }
	void clip() { float s = (float) (clips.size() * 2 + 1); Clip k{ doc->GetAnimationClipLibrary()->AddEntity(), s, s + 5, false }; k.p->SetStart(s); k.p->SetEnd(s + 5); clips.push_back(k); }
	void verify()
	{
		for (size_t i = 0; i < clips.size(); ++i) { Clip& k = clips[i]; if (!k.live) continue; CHECK(k.p->GetStart() == k.start && k.p->GetEnd() == k.end, "clip:times", "clip %d: %g to %g, should be %g to %g", (int) i, k.p->GetStart(), k.p->GetEnd(), k.start, k.end); CHECK(k.p->GetClipCurves().size() == k.curves.size(), "clip:curves", "clip %d has %d curves, should have %d", (int) i, (int) k.p->GetClipCurves().size(), (int) k.curves.size()); for (size_t j = 0; j < k.curves.size(); ++j) CHECK(k.p->GetClipCurves()[j] == curves[k.curves[j]].p, "clip:curve", "."); }
		for (size_t i = 0; i < curves.size(); ++i) { Crv& k = curves[i]; if (!k.live) continue; CHECK(k.p->GetClipCount() == k.regs.size(), "curve:clips", "curve %d has %d clips, should have %d", (int) i, (int) k.p->GetClipCount(), (int) k.regs.size()); for (size_t j = 0; j < k.regs.size(); ++j) { CHECK(k.p->GetClip(j) == clips[k.regs[j].clip].p && k.p->GetClips()[j] == k.p->GetClip(j), "curve:clip", "curve %d, clip %d", (int) i, (int) j); CHECK(k.p->GetClipOffset(j) == k.regs[j].offset, "curve:offset", "curve %d, clip %d: %g, should be %g", (int) i, (int) j, k.p->GetClipOffset(j), k.regs[j].offset); } for (int j = 0; j < 2; ++j) CHECK(k.p->GetKey(j)->input == (float) j + k.shift, "curve:times", "curve %d, key %d is at %g, should be at %g", (int) i, j, k.p->GetKey(j)->input, (float) j + k.shift); }
	}
	void dropClip(int i) { clips[i].live = false; for (auto& k : curves) { for (size_t j = 0; j < k.regs.size();) if (k.regs[j].clip == i) k.regs.erase(k.regs.begin() + j); else ++j; if (k.current == i) k.current = -1; } }
	void dropCurve(int i) { curves[i].live = false; for (auto& k : clips) for (size_t j = 0; j < k.curves.size();) if (k.curves[j] == i) k.curves.erase(k.curves.begin() + j); else ++j; }
	void step(bool cloning)
	{
		auto liveClip = [&]() { vector<int> l; for (size_t i = 0; i < clips.size(); ++i) if (clips[i].live) l.push_back((int) i); if (l.empty()) c.prune(); return l[c.choose((int) l.size())]; }; auto liveCurve = [&]() { vector<int> l; for (size_t i = 0; i < curves.size(); ++i) if (curves[i].live) l.push_back((int) i); if (l.empty()) c.prune(); return l[c.choose((int) l.size())]; };
		switch (c.choose(cloning ? 8 : 6))
		{
		case 0: { int a = liveClip(), b = liveCurve(); for (int x : clips[a].curves) if (x == b) c.prune(); c.op("add curve %d to clip %d", b, a); clips[a].p->AddClipCurve(curves[b].p); clips[a].curves.push_back(b); curves[b].regs.push_back({ a, -clips[a].start }); break; }
		case 1: { int a = liveClip(); c.op("release clip %d", a); clips[a].p->Release(); dropClip(a); break; } case 2: { int a = liveCurve(); c.op("release curve %d", a); curves[a].p->Release(); dropCurve(a); break; }
		case 3: { int b = liveCurve(); Crv& k = curves[b]; int a = k.regs.empty() || c.flag() ? liveClip() : k.regs[c.choose((int) k.regs.size())].clip; c.op("curve %d plays clip %d", b, a); k.p->SetCurrentAnimationClip(clips[a].p); if (k.current != a) { k.current = -1; for (auto& r : k.regs) if (r.clip == a) { k.current = a; k.shift += r.offset - k.base; k.base = r.offset; break; } } break; }
		case 4: { int a = liveClip(); c.op("clip %d starts at 7", a); clips[a].p->SetStart(7); clips[a].start = 7; break; }
		case 5: { c.op("reset the clips to 1"); FCDAnimationClipTools::ResetAnimationClipTimes(doc, 1); for (size_t i = 0; i < clips.size(); ++i) { Clip& k = clips[i]; if (!k.live || k.mine) continue; float o = 1 - k.start; k.start = 1; k.end += o; for (int x : k.curves) for (auto& r : curves[x].regs) if (r.clip == (int) i) { r.offset = o; break; } } break; }
		case 6: { int a = liveCurve(); c.op("clone curve %d with its clips", a); Crv n{ curves[a].p->Clone(NULL, true), true }; n.shift = curves[a].shift; CHECK(n.p->GetClipCount() == curves[a].regs.size(), "clone:clips", "%d, should be %d", (int) n.p->GetClipCount(), (int) curves[a].regs.size()); int id = (int) curves.size(); for (size_t j = 0; j < curves[a].regs.size(); ++j) { Clip& o = clips[curves[a].regs[j].clip]; Clip q{ n.p->GetClip(j), o.start, o.end, true }; CHECK(q.p != o.p, "clone:clips", "the clip is shared"); q.curves.push_back(id); n.regs.push_back({ (int) clips.size(), curves[a].regs[j].offset }); clips.push_back(q); } curves.push_back(n); break; }
		default: { int a = liveClip(); bool children = c.flag(); c.op("clone clip %d%s", a, children ? " with its curves" : ""); FCDAnimationClip* p = (FCDAnimationClip*) clips[a].p->Clone(NULL, children); Clip q{ p, clips[a].start, clips[a].end, true }; int id = (int) clips.size(); if (children) { CHECK(p->GetClipCurves().size() == clips[a].curves.size(), "clone:curves", "."); for (size_t j = 0; j < clips[a].curves.size(); ++j) { Crv n{ p->GetClipCurves()[j], true }; n.shift = curves[clips[a].curves[j]].shift; CHECK(n.p != curves[clips[a].curves[j]].p, "clone:curves", "the curve is shared"); n.regs.push_back({ id, -q.start }); q.curves.push_back((int) curves.size()); curves.push_back(n); } } clips.push_back(q); break; }
		}
	}
};
}
SPACE(clips, 4) { int steps = c.range(1, c.deep ? 5 : 4); { Clips w(c); w.curve(); w.curve(); w.clip(); w.clip(); for (int i = 0; i < steps; ++i) { w.step(false); w.verify(); } c.state((int) w.clips.size()); } c.checkAsserts("the clips"); c.nontrivial(); }
SPACE(clipclones, 4)
{
	int steps = c.range(1, 3); { Clips w(c); w.curve(); w.curve(); w.clip(); w.clip(); int links = c.choose(16); for (int i = 0; i < 4; ++i) if (links & (1 << i)) { int a = i & 1, b = i >> 1; w.clips[a].p->AddClipCurve(w.curves[b].p); w.clips[a].curves.push_back(b); w.curves[b].regs.push_back({ a, -w.clips[a].start }); } w.verify(); for (int i = 0; i < steps; ++i) { w.step(i == 0 || c.deep); w.verify(); } c.state((int) w.clips.size()); } c.checkAsserts("the clips"); c.nontrivial();
}
// The animations that a clip instances.
SPACE(instances, 2)
{
	FUObjectRef<FCDocument> d = FCollada::NewTopDocument(); FCDAnimationClip* k = d->GetAnimationClipLibrary()->AddEntity(); vector<FCDAnimation*> a; for (int i = 0; i < 2; ++i) a.push_back(d->GetAnimationLibrary()->AddEntity()); int n = c.range(0, 3); vector<FCDAnimation*> m; for (int i = 0; i < n; ++i) { FCDAnimation* x = a[c.choose(2)]; FCDEntityInstance* e = k->AddInstanceAnimation(x); CHECK(e != NULL && e->GetEntity() == x, "instance:add", "."); k->SetAnimationName(fm::string(mc::strf("n%d", i).c_str()), i); m.push_back(x); } FCDAnimationClip* q = (FCDAnimationClip*) k->Clone(NULL, c.flag()); Rel r{ q }; c.op("clone a clip of %d animations", n); for (FCDAnimationClip* p : { k, q }) { CHECK(p->GetAnimationCount() == m.size(), "instance:count", "%d, should be %d", (int) p->GetAnimationCount(), n); for (int i = 0; i < n; ++i) CHECK(p->GetAnimation(i) == m[i] && p->GetAnimationName(i) == mc::strf("n%d", i).c_str(), "instance:animation", "%d", i); } c.state(n); c.checkAsserts("the clone"); c.nontrivial();
}
