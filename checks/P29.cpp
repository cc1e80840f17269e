// P29: splines keep their control points, weights and knots, and conversion keeps the curve.
#include <memory>
#include <cmath>
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometrySpline.h"
#include "mc.h"
const char* mc::property = "P29"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence of editing the splines of a geometry up to a bounded length, and every small linear, Bezier and NURBS spline over a grid of control points, open and closed, converted and evaluated; a case is non-trivial when the splines were compared with the model or the curves at every parameter of a grid";
std::vector<std::string> mc::assumptions = { "the control points of a closed Bezier spline are the in-tangent, the knot and the out-tangent of each knot, as ToNURBs states", "a linear spline needs two control points to be valid, and a NURBS spline one weight per control point and as many knots as control points, degree and one more", "setting the type of a geometry spline releases its splines" };
using std::string; using std::vector;
static FUObjectRef<FCDocument>* kept;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); kept = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); }, true);
namespace {
namespace T = FUDaeSplineType;
struct MS { T::Type type; string name; bool closed = false; vector<FMVector3> cvs; vector<float> weights, knots; uint32 degree = 0; bool degreeKnown = false; FCDSpline* real; };
static const T::Type TYPES[] = { T::LINEAR, T::BEZIER, T::NURBS };
static string key(const FMVector3& v) { return mc::strf("%g,%g,%g", v.x, v.y, v.z); }
static bool valid(const MS& m) { return m.type == T::LINEAR ? m.cvs.size() >= 2 : m.type == T::BEZIER ? !m.cvs.empty() : !m.cvs.empty() && m.cvs.size() == m.weights.size() && m.knots.size() == m.cvs.size() + m.degree + 1; }
static bool isValid(const FCDSpline* s) { return s->HasType(FCDLinearSpline::GetClassType()) ? ((const FCDLinearSpline*) s)->IsValid() : s->HasType(FCDBezierSpline::GetClassType()) ? ((const FCDBezierSpline*) s)->IsValid() : ((const FCDNURBSSpline*) s)->IsValid(); }
static void compare(mc::Ctx& c, const MS& m, FCDSpline* r, bool same)
{
	const FCDSpline* k = r; CHECK(!same || m.real == r, "identity", "another spline is at its place"); CHECK(r->GetSplineType() == m.type, "type", "the type is %d instead of %d", r->GetSplineType(), m.type);
	CHECK(r->HasType(m.type == T::LINEAR ? FCDLinearSpline::GetClassType() : m.type == T::BEZIER ? FCDBezierSpline::GetClassType() : FCDNURBSSpline::GetClassType()), "class", "the spline has another class");
	CHECK(m.name == k->GetName().c_str() && m.name == r->GetName().c_str(), "name", "the name is '%s' instead of '%s'", k->GetName().c_str(), m.name.c_str()); CHECK(r->IsClosed() == m.closed, "closed", "IsClosed says %d", (int) r->IsClosed());
	CHECK(r->GetCVCount() == m.cvs.size() && k->GetCVs().size() == m.cvs.size(), "cvs:count", "%zu control points instead of %zu", r->GetCVCount(), m.cvs.size()); for (size_t i = 0; i < m.cvs.size(); ++i) CHECK(*r->GetCV(i) == m.cvs[i] && *k->GetCV(i) == m.cvs[i] && k->GetCVs()[i] == m.cvs[i], "cvs:value", "control point %zu is %s instead of %s", i, key(*k->GetCV(i)).c_str(), key(m.cvs[i]).c_str());
	if (m.type == T::NURBS)
	{
		FCDNURBSSpline* w = (FCDNURBSSpline*) r; const FCDNURBSSpline* n = w; CHECK(n->GetWeights().size() == m.weights.size(), "weights:count", "%zu weights instead of %zu", n->GetWeights().size(), m.weights.size()); for (size_t i = 0; i < m.weights.size(); ++i) { CHECK(n->GetWeights()[i] == m.weights[i], "weights:value", "weight %zu is %g instead of %g", i, n->GetWeights()[i], m.weights[i]); if (i < m.cvs.size()) CHECK(*n->GetWeight(i) == m.weights[i] && *w->GetWeight(i) == m.weights[i], "weights:at", "GetWeight(%zu) is %g", i, *n->GetWeight(i)); }
		CHECK(n->GetKnotCount() == m.knots.size() && n->GetKnots().size() == m.knots.size(), "knots:count", "%zu knots instead of %zu", n->GetKnotCount(), m.knots.size()); for (size_t i = 0; i < m.knots.size(); ++i) CHECK(*n->GetKnot(i) == m.knots[i] && *w->GetKnot(i) == m.knots[i] && n->GetKnots()[i] == m.knots[i], "knots:value", "knot %zu is %g instead of %g", i, *n->GetKnot(i), m.knots[i]);
		if (m.degreeKnown) CHECK(n->GetDegree() == m.degree, "degree", "the degree is %u instead of %u", n->GetDegree(), m.degree); else CHECK(n->GetDegree() < 64, "degree:initial", "a new spline has degree %u", n->GetDegree());
	}
	if (m.type == T::NURBS ? m.degreeKnown : m.type == T::LINEAR || !m.cvs.empty()) CHECK(isValid(r) == valid(m), "validity", "IsValid says %d", (int) isValid(r));
}
static const FMVector3 POINTS[] = { FMVector3(0, 0, 0), FMVector3(1, 2, 0), FMVector3(-3, 1, 4), FMVector3(2.5f, 0, -1) };
struct World
{
	mc::Ctx& c; FUObjectRef<FCDGeometry> g; FCDGeometrySpline* s; T::Type type = T::UNKNOWN; vector<MS> m;
	World(mc::Ctx& c) : c(c), g(new FCDGeometry(*kept)), s(NULL) { s = g->CreateSpline(); }
	void check(FCDGeometrySpline* r, bool same)
	{
		CHECK(r->GetType() == type, "geometry:type", "the type is %d instead of %d", r->GetType(), type); CHECK(r->GetSplineCount() == m.size(), "geometry:count", "%zu splines instead of %zu", r->GetSplineCount(), m.size()); size_t total = 0; for (size_t i = 0; i < m.size(); ++i) { compare(c, m[i], r->GetSpline(i), same); const FCDGeometrySpline* k = r; CHECK(k->GetSpline(i) == r->GetSpline(i), "geometry:at", "GetSpline differs"); total += m[i].cvs.size(); }
		CHECK(r->GetTotalCVCount() == total, "geometry:total", "%zu control points in all instead of %zu", r->GetTotalCVCount(), total);
	}
	void check() { CHECK(g->IsSpline() && !g->IsMesh() && g->GetSpline() == s && s->GetParent() == g, "geometry:spline", "the geometry has another spline"); check(s, true); }
	MS* add(T::Type t) { FCDSpline* r = s->AddSpline(t); T::Type want = t == T::UNKNOWN ? type : t; bool may = want == type && want != T::UNKNOWN; CHECK(!r == !may, "add-spline", "AddSpline(%d) of a geometry of type %d returned %s", t, type, r ? "a spline" : "NULL"); if (!r) return NULL; m.push_back(MS()); m.back().type = want; m.back().real = r; return &m.back(); }
	void cv(MS& k, int p, float w) { bool ok = k.type == T::LINEAR ? ((FCDLinearSpline*) k.real)->AddCV(POINTS[p]) : k.type == T::BEZIER ? ((FCDBezierSpline*) k.real)->AddCV(POINTS[p]) : ((FCDNURBSSpline*) k.real)->AddCV(POINTS[p], w); CHECK(ok == (k.type != T::NURBS || w >= 0.0f), "add-cv", "AddCV with weight %g returned %d", w, (int) ok); if (ok) { k.cvs.push_back(POINTS[p]); if (k.type == T::NURBS) k.weights.push_back(w); } }
	string text() { string r = mc::strf("%d", type); for (MS& k : m) { r += mc::strf("|%d%d%s%d%u", k.type, k.closed, k.name.c_str(), k.degreeKnown, k.degree); for (auto& v : k.cvs) r += key(v) + ";"; for (float f : k.weights) r += mc::strf("w%g", f); for (float f : k.knots) r += mc::strf("k%g", f); } return r; }
};
struct Gone : FUTracker { int n = 0; vector<FUTrackable*> on; void watch(FUTrackable* o) { TrackObject(o); on.push_back(o); } virtual void OnObjectReleased(FUTrackable* o) { ++n; for (size_t i = 0; i < on.size(); ++i) if (on[i] == o) { on.erase(on.begin() + (long) i); break; } } ~Gone() { for (auto* o : on) UntrackObject(o); } };
static void step(mc::Ctx& c, World& w)
{
	auto pick = [&]() -> MS& { if (w.m.empty()) c.prune(); return w.m[(size_t) c.choose((int) w.m.size())]; }; auto nurbs = [&]() -> MS& { MS& k = pick(); if (k.type != T::NURBS) c.prune(); return k; };
	switch (c.choose(12))
	{
	case 0: { int q = c.choose(4); T::Type t = q ? TYPES[q - 1] : T::UNKNOWN; c.op("AddSpline(%d)", t); w.add(t); break; }
	case 1: { T::Type t = TYPES[c.choose(3)]; c.op("SetType(%d)", t); Gone g; for (MS& k : w.m) g.watch(k.real); w.s->SetType(t); CHECK(g.n == (int) w.m.size(), "set-type", "%d of %zu splines were released", g.n, w.m.size()); w.m.clear(); w.type = t; break; }
	case 2: { MS& k = pick(); int p = c.choose(2); float v = k.type == T::NURBS ? c.choose(2) ? 2.0f : 0.0f : 1.0f; c.op("AddCV(%d, %g)", p, v); w.cv(k, p, v); break; }
	case 3: { MS& k = nurbs(); c.op("AddCV with a negative weight"); w.cv(k, 1, -1.0f); break; }
	case 4: { MS& k = nurbs(); float v = (float) c.choose(2); c.op("AddKnot(%g)", v); ((FCDNURBSSpline*) k.real)->AddKnot(v); k.knots.push_back(v); break; }
	case 5: { MS& k = nurbs(); k.degree = (uint32) c.choose(2); k.degreeKnown = true; c.op("SetDegree(%u)", k.degree); ((FCDNURBSSpline*) k.real)->SetDegree(k.degree); break; }
	case 6: { MS& k = pick(); k.closed = !k.closed; c.op("SetClosed(%d)", (int) k.closed); k.real->SetClosed(k.closed); break; }
	case 7: { MS& k = pick(); k.name = k.name.empty() ? "s" : ""; c.op("SetName"); k.real->SetName(k.name.c_str()); break; }
	case 8: { MS& k = pick(); if (k.cvs.empty()) c.prune(); c.op("ClearCVs"); k.real->ClearCVs(); k.cvs.clear(); break; }
	case 9: { MS& k = pick(); if (k.cvs.empty()) c.prune(); size_t i = (size_t) c.choose((int) k.cvs.size()); if (c.flag()) { c.op("move control point %zu", i); *k.real->GetCV(i) = POINTS[3]; k.cvs[i] = POINTS[3]; } else { c.op("erase control point %zu", i); k.real->GetCVs().erase(k.real->GetCVs().begin() + (long) i); k.cvs.erase(k.cvs.begin() + (long) i); if (k.type == T::NURBS && i < k.weights.size()) { ((FCDNURBSSpline*) k.real)->GetWeights().erase(((FCDNURBSSpline*) k.real)->GetWeights().begin() + (long) i); k.weights.erase(k.weights.begin() + (long) i); } } break; }
	case 10: { MS& k = pick(); c.op("release a spline"); Gone g; g.watch(k.real); k.real->Release(); CHECK(g.n == 1, "release", "the spline was not released"); w.m.erase(w.m.begin() + (&k - &w.m[0])); break; }
	case 11: { c.op("CreateSpline"); Gone g; for (MS& k : w.m) g.watch(k.real); g.watch(w.s); w.s = w.g->CreateSpline(); CHECK(g.n == 1 + (int) w.m.size(), "create-spline", "the earlier splines were not released"); w.m.clear(); w.type = T::UNKNOWN; break; }
	}
}
// Curves, in double precision.
struct D3 { double x, y, z; }; static D3 lerp(const D3& a, const D3& b, double t) { return { a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t, a.z + (b.z - a.z) * t }; } static D3 d3(const FMVector3& v) { return { v.x, v.y, v.z }; }
static double far(const D3& a, const D3& b) { return std::fabs(a.x - b.x) + std::fabs(a.y - b.y) + std::fabs(a.z - b.z); }
static D3 bezier(const D3* p, double t) { D3 a = lerp(p[0], p[1], t), b = lerp(p[1], p[2], t), d = lerp(p[2], p[3], t); return lerp(lerp(a, b, t), lerp(b, d, t), t); }
static double basis(const FloatList& k, size_t i, size_t d, double t, double last) { if (d == 0) return (t >= k[i] && t < k[i + 1]) || (t == last && k[i] < k[i + 1] && k[i + 1] == last) ? 1.0 : 0.0; double r = 0.0; if (k[i + d] != k[i]) r += (t - k[i]) / (k[i + d] - k[i]) * basis(k, i, d - 1, t, last); if (k[i + d + 1] != k[i + 1]) r += (k[i + d + 1] - t) / (k[i + d + 1] - k[i + 1]) * basis(k, i + 1, d - 1, t, last); return r; }
static D3 nurbs(const FCDNURBSSpline* n, double u) { const FloatList& k = n->GetKnots(); size_t d = n->GetDegree(); double a = k[d], b = k[k.size() - 1 - d], t = a + (b - a) * u, w = 0.0; D3 r = { 0, 0, 0 }; for (size_t i = 0; i < n->GetCVCount(); ++i) { double f = basis(k, i, d, t, b) * n->GetWeights()[i]; const FMVector3& p = n->GetCVs()[i]; r.x += f * p.x; r.y += f * p.y; r.z += f * p.z; w += f; } return { r.x / w, r.y / w, r.z / w }; }
typedef std::vector<std::vector<D3>> Curve; // the cubic segments
static Curve segments(const vector<FMVector3>& cv, bool closed) { Curve r; size_t n = cv.size(); if (!closed) { for (size_t i = 0; i + 3 < n; i += 3) r.push_back({ d3(cv[i]), d3(cv[i + 1]), d3(cv[i + 2]), d3(cv[i + 3]) }); } else for (size_t k = 0; k < n / 3; ++k) r.push_back({ d3(cv[3 * k + 1]), d3(cv[3 * k + 2]), d3(cv[(3 * k + 3) % (n / 3 * 3)]), d3(cv[(3 * k + 4) % (n / 3 * 3)]) }); return r; }
struct List : FCDNURBSSplineList { ~List() { for (size_t i = 0; i < size(); ++i) at(i)->Release(); } };
static void same(mc::Ctx& c, const FCDNURBSSplineList& l, size_t from, const Curve& want, const char* what)
{
	CHECK(l.size() - from == want.size(), mc::strf("%s:segments", what), "%zu NURBS instead of %zu", l.size() - from, want.size());
	for (size_t s = 0; s < want.size(); ++s) { const FCDNURBSSpline* n = l[from + s]; CHECK(n->IsValid() && n->GetCVCount() > n->GetDegree(), mc::strf("%s:valid", what), "NURBS %zu is not valid", s); CHECK(!n->IsClosed(), mc::strf("%s:closed", what), "NURBS %zu is closed", s); for (int t = 0; t <= 8; ++t) { D3 a = nurbs(n, t / 8.0), b = bezier(&want[s][0], t / 8.0); CHECK(far(a, b) < 1e-4, mc::strf("%s:shape", what), "segment %zu at %g is at (%g %g %g) instead of (%g %g %g)", s, t / 8.0, a.x, a.y, a.z, b.x, b.y, b.z); } }
}
}
SPACE(edits, 3)
{
	World w(c); w.check(); int how = c.choose(4); if (how) { w.type = TYPES[how - 1]; w.s->SetType(w.type); MS* k = w.add(T::UNKNOWN); w.cv(*k, 0, 1.0f); w.cv(*k, 1, 2.0f); if (how == 3) for (int i = 0; i < 4; ++i) { ((FCDNURBSSpline*) k->real)->AddKnot((float) (i / 2)); k->knots.push_back((float) (i / 2)); } w.check(); } int len = (how == 0 ? 5 : 4) + (c.deep ? 1 : 0);
	for (int i = 0; i < len; ++i) { step(c, w); w.check(); c.state(w.text()); }
	for (int mode = 0; mode < 2; ++mode)
	{
		FUObjectRef<FCDEntity> k; FUObjectRef<FCDGeometrySpline> q; FCDGeometrySpline* r; if (mode == 0) { k = w.g->Clone(NULL, true); r = ((FCDGeometry*) (FCDEntity*) k)->GetSpline(); CHECK(r && r->GetParent() == (FCDGeometry*) (FCDEntity*) k, "clone:spline", "the clone of the geometry has no spline"); } else { q = w.s->Clone(NULL); r = q; }
		w.check(r, false); for (size_t i = 0; i < r->GetSplineCount(); ++i) { CHECK(r->GetSpline(i) != w.m[i].real, "clone:shared", "the clone shares a spline"); r->GetSpline(i)->ClearCVs(); r->GetSpline(i)->SetClosed(!w.m[i].closed); } w.check();
	}
	w.g->CreateMesh(); CHECK(w.g->IsMesh() && !w.g->IsSpline() && !w.g->GetSpline(), "create-mesh", "the spline is still there"); c.nontrivial();
}
// Every small polyline, converted to Bezier and then to NURBS.
SPACE(linear, 3)
{
	int n = c.choose(c.deep ? 7 : 6); bool closed = c.flag(); World w(c); w.s->SetType(T::LINEAR); w.type = T::LINEAR; MS* k = w.add(T::LINEAR); int dirty = c.choose(3); for (int i = 0; i < n; ++i) w.cv(*k, c.choose(4), 1.0f); k->closed = closed; k->real->SetClosed(closed); c.op("%d control points, closed %d, target %d", n, (int) closed, dirty);
	FUObjectRef<FCDBezierSpline> b(new FCDBezierSpline(*kept)); if (dirty) { b->AddCV(POINTS[2]); b->AddCV(POINTS[1]); b->SetClosed(dirty == 2); } ((FCDLinearSpline*) k->real)->ToBezier(*b); w.check();
	if (n < 2) { CHECK(b->GetCVCount() == (dirty ? 2u : 0u) && b->IsClosed() == (dirty == 2), "linear:invalid", "an invalid spline changed the target"); c.nontrivial(); return; }
	CHECK(b->IsClosed() == closed, "linear:closed", "the Bezier spline is%s closed", b->IsClosed() ? "" : " not"); CHECK(b->IsValid(), "linear:valid", "the Bezier spline is not valid"); Curve is = segments(vector<FMVector3>(b->GetCVs().begin(), b->GetCVs().end()), b->IsClosed()); size_t lines = closed ? (size_t) n : (size_t) n - 1; CHECK(is.size() == lines, "linear:segments", "%zu segments instead of %zu", is.size(), lines);
	for (size_t s = 0; s < lines; ++s) { D3 p = d3(k->cvs[s]), q = d3(k->cvs[(s + 1) % (size_t) n]); double before = 0.0; for (int t = 0; t <= 8; ++t) { D3 v = bezier(&is[s][0], t / 8.0); double l = far(p, q), along = l > 0.0 ? far(p, v) / l : 0.0; CHECK(far(v, lerp(p, q, along)) < 1e-5 && along >= before - 1e-6 && (t != 0 || along < 1e-6) && (t != 8 || l == 0.0 || std::fabs(along - 1.0) < 1e-6), "linear:shape", "line %zu at %g is at (%g %g %g)", s, t / 8.0, v.x, v.y, v.z); before = along; } }
	List l; b->ToNURBs(l); same(c, l, 0, is, "linear-nurbs"); c.nontrivial();
}
// Every small Bezier spline, alone and with another one in the same geometry, converted to NURBS.
SPACE(beziers, 3)
{
	int n = c.choose(c.deep ? 11 : 10); bool closed = c.flag(); int points = n <= 5 ? 4 : n <= 8 ? 3 : 2; World w(c); w.s->SetType(T::BEZIER); w.type = T::BEZIER; int others = c.choose(2); MS* k = NULL; if (others) { MS* o = w.add(T::BEZIER); for (int i = 0; i < 4; ++i) w.cv(*o, 3 - i, 1.0f); } k = w.add(T::BEZIER); for (int i = 0; i < n; ++i) w.cv(*k, c.choose(points), 1.0f); k->closed = closed; k->real->SetClosed(closed); c.op("%d control points, closed %d", n, (int) closed);
	if (closed && n % 3) { List l; ((FCDBezierSpline*) k->real)->ToNURBs(l); w.check(); c.nontrivial(); return; } // not a whole number of knots: any curve, without harm
	Curve want = segments(k->cvs, closed); List l; if (!others) { ((FCDBezierSpline*) k->real)->ToNURBs(l); same(c, l, 0, want, "bezier"); List again; ((FCDBezierSpline*) k->real)->ToNURBs(l); same(c, l, want.size(), want, "bezier-append"); }
	else { w.s->ConvertBezierToNURBS(l); Curve all = segments(w.m[0].cvs, false); all.insert(all.end(), want.begin(), want.end()); same(c, l, 0, all, "geometry"); }
	w.check(); c.nontrivial();
}
// The geometry of another type converts nothing; every degree, weight count and knot count is valid exactly as defined.
SPACE(validity, 2)
{
	int type = c.choose(3); World w(c); w.type = TYPES[type]; w.s->SetType(w.type); MS* k = w.add(T::UNKNOWN); int cvs = c.choose(6); c.op("type %d, %d control points", type, cvs);
	if (type == 2) { int degree = c.choose(5), knots = c.choose(13), weights = c.choose(7); k->degree = (uint32) degree; k->degreeKnown = true; FCDNURBSSpline* n = (FCDNURBSSpline*) k->real; n->SetDegree((uint32) degree); for (int i = 0; i < cvs; ++i) w.cv(*k, i % 4, (float) i); n->GetWeights().resize((size_t) weights, 0.5f); k->weights.resize((size_t) weights, 0.5f); for (int i = 0; i < knots; ++i) { n->AddKnot((float) i); k->knots.push_back((float) i); } c.op("degree %d, %d knots, %d weights", degree, knots, weights); if (weights < cvs) { CHECK(n->IsValid() == valid(*k), "validity:weights", "IsValid says %d", (int) n->IsValid()); c.nontrivial(); return; } } else for (int i = 0; i < cvs; ++i) w.cv(*k, i % 4, 1.0f);
	w.check(); if (type != 1) { List l; w.s->ConvertBezierToNURBS(l); CHECK(l.empty(), "convert:other", "%zu NURBS from a geometry without Bezier splines", l.size()); w.check(); } c.nontrivial();
}
