// P09: evaluation of animation curves.
#include <cmath>
#include <memory>
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationMultiCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "mc.h"
const char* mc::property = "P09"; const char* mc::level = "model_checking";
const char* mc::rule = "every curve of up to a bound of keys over grids of gaps, values, tangents, interpolations and infinity modes, evaluated over a grid of times reaching outside; a case is non-trivial when values were compared with the independent double-precision evaluation";
std::vector<std::string> mc::assumptions = { "keys are ordered by time and times are finite", "Bezier evaluation has the documented tolerance of 0.001 in time or in the curve parameter", "a Bezier or TCB segment that ends in a step key holds its first value, and one that ends in a linear key is linear: the kind of the second key decides, as in the implementation", "TCB keys: exact values are checked between evenly spaced TCB keys; elsewhere finiteness, boundedness and the values at the keys", "multi-dimensional curves of TCB keys are not implemented by the library and are left out" };
using std::string; using std::vector;
static FUObjectRef<FCDocument>* kept;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); kept = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); }, true);
namespace {
enum { STEP = FUDaeInterpolation::STEP, LINEAR = FUDaeInterpolation::LINEAR, BEZIER = FUDaeInterpolation::BEZIER, TCB = FUDaeInterpolation::TCB };
static const FUDaeInfinity::Infinity INF[] = { FUDaeInfinity::CONSTANT, FUDaeInfinity::LINEAR, FUDaeInfinity::CYCLE, FUDaeInfinity::CYCLE_RELATIVE, FUDaeInfinity::OSCILLATE };
struct Key { double x, y; int ip; double ix = 0, iy = 0, ox = 0, oy = 0, t = 0, c = 0, b = 0; };
struct Range { double lo = 1e300, hi = -1e300; bool loose = false; void add(double v) { lo = std::min(lo, v); hi = std::max(hi, v); } void add(const Range& r) { if (r.loose) loose = true; if (r.lo <= r.hi) { add(r.lo); add(r.hi); } } Range shift(double d) const { Range r = *this; if (r.lo <= r.hi) { r.lo += d; r.hi += d; } return r; } };
static double bez(double a, double b, double c, double d, double t) { double u = 1 - t; return a * u * u * u + 3 * b * u * u * t + 3 * c * u * t * t + d * t * t * t; }
struct Curve
{
	vector<Key> k; int pre = 0, post = 0; bool flat = false;   // flat: one-dimensional evaluation.
	double scale() const { double m = 1; for (auto& e : k) { m = std::max(m, std::fabs(e.y)); if (e.ip == BEZIER) m = std::max(m, std::max(std::fabs(e.iy), std::fabs(e.oy))); } return m; }
	bool tcb() const { for (auto& e : k) if (e.ip == TCB) return true; return false; }
	Range control(double x, double x0, double x1, double x2, double x3, double y0, double y1, double y2, double y3) const
	{
		Range r; if (flat) { double t = (x - x0) / (x3 - x0); r.add(bez(y0, y1, y2, y3, t)); return r; }
		if (x1 < x0 || x1 > x3 || x2 < x0 || x2 > x3) { double m = std::min(std::min(y0, y1), std::min(y2, y3)), h = std::max(std::max(y0, y1), std::max(y2, y3)); r.add(m); r.add(h); return r; }
		double lo = 0, hi = 1; for (int i = 0; i < 60; ++i) { double m = (lo + hi) / 2; if (bez(x0, x1, x2, x3, m) > x) hi = m; else lo = m; } double t = (lo + hi) / 2;
		r.add(bez(y0, y1, y2, y3, t)); for (int d = -1; d < 2; d += 2) for (double s = t; s >= 0 && s <= 1 && (std::fabs(s - t) < 0.0011 || std::fabs(bez(x0, x1, x2, x3, s) - x) < 0.0011); s += d * 0.0002) r.add(bez(y0, y1, y2, y3, s)); return r;
	}
	bool even(size_t i) const { return i > 0 && i + 1 < k.size() && std::fabs((k[i].x - k[i - 1].x) - (k[i + 1].x - k[i].x)) < 1e-9; }
	Range inside(double x) const   // first.x <= x <= last.x
	{
		Range r; for (auto& e : k) if (e.x == x) r.add(e.y); if (r.lo <= r.hi) { for (size_t i = 0; i + 1 < k.size(); ++i) if ((k[i].x == x || k[i + 1].x == x) && k[i].x < k[i + 1].x && k[i].ip >= BEZIER && k[i + 1].ip >= BEZIER) { Range q = segment(i, x); if (q.hi - q.lo > 10 * scale()) r.loose = true; else r.add(q); } return r; }
		size_t i = 0; while (k[i + 1].x <= x) ++i; return segment(i, x);
	}
	Range segment(size_t i, double x) const
	{
		Range r; const Key& a = k[i], & b = k[i + 1]; double f = (x - a.x) / (b.x - a.x), lin = a.y + f * (b.y - a.y);
		if (a.ip == LINEAR) { r.add(lin); return r; } if (a.ip == STEP || b.ip == STEP) { r.add(a.y); return r; } if (b.ip == LINEAR) { r.add(lin); return r; }
		double ax, ay, bx, by; bool exact = true;
		if (a.ip == BEZIER) { ax = a.ox; ay = a.oy; if (flat) ay = a.y + (a.oy - a.y) * slope(b.x - a.x, a.ox - a.x); } else { exact = exact && even(i); double tx = 0, ty = 0; if (exact) tangent(i, false, tx, ty); ax = a.x + tx / 3; ay = a.y + ty / 3; }
		if (b.ip == BEZIER) { bx = b.ix; by = b.iy; if (flat) by = b.y + (b.iy - b.y) * slope(b.x - a.x, b.x - b.ix); } else { exact = exact && even(i + 1); double tx = 0, ty = 0; if (exact) tangent(i + 1, true, tx, ty); bx = b.x - tx / 3; by = b.y - ty / 3; }
		if (!exact) { double m = flat ? 100 : 6; r.add(-m * scale()); r.add(m * scale()); return r; }
		return control(x, a.x, ax, bx, b.x, a.y, ay, by, b.y);
	}
	static double slope(double span, double weight) { double s = span / weight; if (s < 0.01) s = 0.01; if (s > 100) s = 100; return s / 3; }
	// Kochanek and Bartels.
	void tangent(size_t i, bool incoming, double& tx, double& ty) const { const Key& p = k[i - 1], & q = k[i], & n = k[i + 1]; double u, v; if (incoming) { u = (1 - q.t) * (1 - q.c) * (1 + q.b) / 2; v = (1 - q.t) * (1 + q.c) * (1 - q.b) / 2; } else { u = (1 - q.t) * (1 + q.c) * (1 + q.b) / 2; v = (1 - q.t) * (1 - q.c) * (1 - q.b) / 2; } tx = u * (q.x - p.x) + v * (n.x - q.x); ty = u * (q.y - p.y) + v * (n.y - q.y); }
	Range around(double x) const { double s = k.front().x, e = k.back().x, d = 2e-5 * std::max(1.0, std::max(std::fabs(s), std::fabs(e))) + slack; Range r; for (double y : { x - d, x, x + d }) r.add(inside(std::min(e, std::max(s, y)))); for (auto& q : k) if (std::fabs(q.x - x) <= d) r.add(inside(q.x)); return r; }
	mutable double slack = 0;
	Range at(double x) const
	{
		Range r; if (k.empty()) { r.add(0); return r; } if (k.size() == 1) { r.add(k[0].y); return r; } double s = k.front().x, e = k.back().x, span = e - s, rise = k.back().y - k.front().y; size_t n = k.size();
		if (x >= s && x <= e) { if (span == 0) { r.add(k.front().y); r.add(k.back().y); return r; } r = inside(x); return r; }
		bool before = x < s; double d = before ? s - x : x - e; slack = d * 2e-7;
		switch (before ? pre : post)
		{
		case 0: r.add(before ? k.front().y : k.back().y); return r;
		case 1: { const Key& a = before ? k[0] : k[n - 2], & b = before ? k[1] : k[n - 1]; double g = b.x == a.x ? 0 : (b.y - a.y) / (b.x - a.x); r.add(before ? k[0].y - g * d : b.y + g * d); return r; }
		case 2: case 3: { bool rel = (before ? pre : post) == 3; if (span == 0) { r.add(k.front().y); r.add(k.back().y); return r; } double turns = std::floor((x - s) / span); for (int o = -1; o <= 1; ++o) { double t = turns + o, y = x - t * span; double m = 1e-4 + slack; if (y < s - m || y > e + m) continue; r.add(around(std::min(e, std::max(s, y))).shift(rel ? t * rise : 0)); } return r; }
		default: { if (span == 0) { r.add(k.front().y); r.add(k.back().y); return r; } double y = std::fmod(std::fabs(x - s), 2 * span); if (y > span) y = 2 * span - y; r.add(around(s + y)); return r; }
		}
	}
	string show() const { string s; for (auto& e : k) { s += mc::strf("%s(%g, %g %s", s.empty() ? "" : " ", e.x, e.y, e.ip == STEP ? "step" : e.ip == LINEAR ? "linear" : e.ip == BEZIER ? "bezier" : "tcb"); if (e.ip == BEZIER) s += mc::strf(" in %g, %g out %g, %g", e.ix, e.iy, e.ox, e.oy); if (e.ip == TCB) s += mc::strf(" %g %g %g", e.t, e.c, e.b); s += ")"; } return s + mc::strf(" before %d after %d", pre, post); }
};
struct Rel { FUObject* o; ~Rel() { o->Release(); } };
static FCDAnimationCurve* make(const Curve& m)
{
	FCDAnimationCurve* k = new FCDAnimationCurve(*kept, NULL); k->SetPreInfinity(INF[m.pre]); k->SetPostInfinity(INF[m.post]);
	for (auto& e : m.k) { FCDAnimationKey* x = k->AddKey((FUDaeInterpolation::Interpolation) e.ip); x->input = (float) e.x; x->output = (float) e.y; if (e.ip == BEZIER) { FCDAnimationKeyBezier* z = (FCDAnimationKeyBezier*) x; z->inTangent = FMVector2((float) e.ix, (float) e.iy); z->outTangent = FMVector2((float) e.ox, (float) e.oy); } if (e.ip == TCB) { FCDAnimationKeyTCB* z = (FCDAnimationKeyTCB*) x; z->tension = (float) e.t; z->continuity = (float) e.c; z->bias = (float) e.b; z->easeIn = z->easeOut = 0; } }
	return k;
}
static string kind(const Curve& m) { bool t = m.tcb(), b = false; for (auto& e : m.k) b = b || e.ip == BEZIER; return t ? "tcb" : b ? "bezier" : "plain"; }
static void compare(mc::Ctx& c, const Curve& m, double x, float got, const char* what)
{
	m.slack = 0; Range r = m.at(x); double tol = 2e-4 * m.scale() + (r.loose ? 0.25 * m.scale() : 0) + 1e-6 * std::fabs(r.hi); const char* where = m.k.size() < 2 ? "few" : x < m.k.front().x ? "before" : x > m.k.back().x ? "after" : "inside"; for (auto& e : m.k) if (e.x == x) where = "key";
	if (!std::isfinite(got)) c.fail(mc::strf("%s:%s:finite", what, where), "at %g: %g for %s", x, got, m.show().c_str()); CHECK(got >= r.lo - tol && got <= r.hi + tol, mc::strf("%s:%s:%s", what, kind(m).c_str(), where), "at %.9g is %.9g, should be %.9g to %.9g for %s", x, got, r.lo, r.hi, m.show().c_str());
}
static void evaluate(mc::Ctx& c, const Curve& m, const vector<float>& times)
{
	FCDAnimationCurve* k = make(m); Rel rel{ k }; vector<float> first; for (float x : times) { float v = k->Evaluate(x); first.push_back(v); compare(c, m, x, v, "curve"); } for (size_t i = times.size(); i-- > 0;) { float v = k->Evaluate(times[i]); CHECK(memcmp(&v, &first[i], 4) == 0, "curve:repeat", "at %g: %g and then %g", times[i], first[i], v); } c.checkAsserts("the evaluation"); c.nontrivial();
}
static vector<float> grid(const Curve& m, int inside, bool outside)
{
	vector<float> t; for (size_t i = 0; i < m.k.size(); ++i) { t.push_back((float) m.k[i].x); if (i + 1 < m.k.size() && m.k[i + 1].x > m.k[i].x) for (int j = 1; j <= inside; ++j) t.push_back((float) (m.k[i].x + (m.k[i + 1].x - m.k[i].x) * j / (inside + 1))); } if (outside && !m.k.empty()) { double s = m.k.front().x, e = m.k.back().x, w = e > s ? e - s : 1; for (double f : { 0.1, 0.25, 0.5, 0.8, 1.0, 1.3, 1.75, 2.0, 2.4, 3.0, 7.6 }) { t.push_back((float) (s - f * w)); t.push_back((float) (e + f * w)); } } return t;
}
static void tangents(Key& e, double back, double ahead, double fi, double yi, double fo, double yo) { e.ix = e.x - back * fi; e.iy = e.y + yi; e.ox = e.x + ahead * fo; e.oy = e.y + yo; }
struct Flat { bool old[1]; Flat(bool flat) { FCDAnimationCurve::Set2DCurveEvaluation(!flat); } ~Flat() { FCDAnimationCurve::Set2DCurveEvaluation(true); } };
static const vector<double> THIRDS = { 1.0 / 3, 0, 0.6, 1 };
}
// Two keys of any kinds.
SPACE(segments, 3)
{
	static const int KINDS[] = { STEP, LINEAR, BEZIER, TCB }; Curve m; Key a, b; a.x = c.pick(vector<double>{ 0, -1.5, 20 }); double w = c.pick(vector<double>{ 1, 0.25, 30 }); b.x = a.x + w; a.y = c.pick(vector<double>{ 0, 1, -2 }); b.y = c.pick(vector<double>{ 0, 3 }); a.ip = KINDS[c.choose(4)]; b.ip = KINDS[c.choose(4)]; a.ix = a.ox = a.x; a.iy = a.oy = a.y; b.ix = b.ox = b.x; b.iy = b.oy = b.y; m.flat = c.flag();
	if (a.ip == BEZIER && b.ip >= BEZIER) tangents(a, w, w, 1.0 / 3, 0, c.pick(THIRDS), c.pick(vector<double>{ 0, 2, -1 })); if (b.ip == BEZIER && a.ip >= BEZIER) tangents(b, w, w, c.pick(THIRDS), c.pick(vector<double>{ 0, 2, -1 }), 1.0 / 3, 0); if (a.ip == TCB) { a.t = c.choose(2) * 0.5; a.c = c.choose(2) * -0.5; a.b = c.choose(2); } if (b.ip == TCB) { b.t = c.choose(2) * 0.5; b.b = c.choose(2); }
	m.k = { a, b }; c.op("%s%s", m.flat ? "flat " : "", m.show().c_str()); Flat f(m.flat); evaluate(c, m, grid(m, 12, true)); c.state(a.ip * 4 + b.ip);
}
// Bezier segments whose tangents overshoot stay within the hull.
SPACE(overshoot, 2)
{
	Curve m; Key a, b; a.x = 0; b.x = 1; a.y = 1; b.y = -1; a.ip = b.ip = BEZIER; a.ix = -1; a.iy = 1; b.ox = 2; b.oy = -1; a.ox = c.pick(vector<double>{ -3, -0.5, 1.5, 4 }); a.oy = c.pick(vector<double>{ 0, 5 }); b.ix = c.pick(vector<double>{ -3, -0.5, 1.5, 4 }); b.iy = c.pick(vector<double>{ 0, -5 }); m.k = { a, b }; c.op("%s", m.show().c_str()); FCDAnimationCurve* k = make(m); Rel rel{ k }; for (int i = 0; i <= 50; ++i) { float v = k->Evaluate((float) i / 50); CHECK(v >= -5.01f && v <= 5.01f, "curve:hull", "%g at %d", v, i); } c.state((int) a.ox); c.nontrivial();
}
// Curves of a kind with every infinity mode.
SPACE(infinity, 3)
{
	int n = c.range(1, c.deep ? 5 : 4); Curve m; int ip = c.choose(3); double x = c.flag() ? 0 : -2.25; for (int i = 0; i < n; ++i) { Key e; e.x = x; x += c.pick(vector<double>{ 1, 0.5, 0 }); if (n > 3) e.y = i == 1 ? 3 : c.pick(vector<double>{ 0, 1 }); else e.y = c.pick(vector<double>{ 0, 1, -2 }); e.ip = ip; m.k.push_back(e); } for (int i = 0; i < n; ++i) { double p = i ? m.k[i].x - m.k[i - 1].x : 1, q = i + 1 < n ? m.k[i + 1].x - m.k[i].x : 1; tangents(m.k[i], p, q, 1.0 / 3, -0.5, 1.0 / 3, 0.5); } m.pre = c.choose(5); m.post = c.choose(5); if (n == 4 && !c.deep && m.pre && m.post && m.pre != m.post) c.prune(); c.op("%s", m.show().c_str()); evaluate(c, m, grid(m, 3, true)); c.state(m.pre * 5 + m.post);
}
// Curves of mixed kinds.
SPACE(mixed, 4)
{
	int n = c.range(2, c.deep ? 5 : 4); Curve m; double x = 0; for (int i = 0; i < n; ++i) { Key e; e.x = x; x += c.pick(vector<double>{ 1, 0.5, 4 }); e.y = i & 1 ? c.pick(vector<double>{ -1, 2 }) : i; e.ip = c.pick(vector<int>{ STEP, LINEAR, BEZIER, TCB }); if (e.ip == TCB) { e.t = i * 0.25; e.c = i == 1 ? -0.25 : 0.5; e.b = i & 2 ? -0.5 : 0.5; } m.k.push_back(e); } for (int i = 0; i < n; ++i) { double p = i ? m.k[i].x - m.k[i - 1].x : 1, q = i + 1 < n ? m.k[i + 1].x - m.k[i].x : 1; tangents(m.k[i], p, q, 0.25, 1, 0.5, -1); } c.op("%s", m.show().c_str()); evaluate(c, m, grid(m, 5, true)); string s; for (auto& e : m.k) s += (char) ('a' + e.ip); c.state(s);
}
// TCB keys at even times.
SPACE(tcb, 3)
{
	int n = c.range(3, 5); Curve m; double g = c.pick(vector<double>{ 1, 0.5, 10 }), t = c.pick(vector<double>{ 0, 0.5, -0.5, 1 }), k = c.pick(vector<double>{ 0, 0.5, -0.5 }), b = c.pick(vector<double>{ 0, 0.5, -0.5 }); m.flat = c.flag(); for (int i = 0; i < n; ++i) { Key e; e.x = g * i - 1; e.y = c.pick(vector<double>{ 0, 2, -1 }); e.ip = TCB; e.t = i & 1 ? 0 : t; e.c = i & 1 ? k : 0; e.b = b; m.k.push_back(e); } c.op("%s", m.show().c_str()); Flat f(m.flat); evaluate(c, m, grid(m, 6, true)); c.state(n);
}
// Many keys: finding the right segment.
SPACE(many, 3)
{
	int n = c.range(3, c.deep ? 80 : 40), ip = c.choose(2), dup = c.choose(n + 1), run = dup < n ? c.range(1, 3) : 0; Curve m; double x = 0; for (int i = 0; i < n; ++i) { Key e; e.x = x; if (!(i >= dup && i < dup + run)) x += 1 + i % 3; e.y = i * 7 % 11; e.ip = ip ? LINEAR : STEP; m.k.push_back(e); } c.op("%d keys, %d at the time of key %d", n, run, dup); evaluate(c, m, grid(m, 2, false)); c.state(run);
}
// Times that are not exact in binary.
SPACE(frames, 3)
{
	int n = c.range(2, 4), rate = c.pick(vector<int>{ 24, 25, 30, 60, 10, 7 }), from = c.choose(4); int gap = c.pick(vector<int>{ 1, 3, 10 }); Curve m; for (int i = 0; i < n; ++i) { Key e; e.x = (float) (from * 5 + i * gap) / (float) rate; e.y = (i * 3) % 4; e.ip = LINEAR; m.k.push_back(e); } m.pre = c.range(0, 4); m.post = m.pre; c.op("%s", m.show().c_str()); vector<float> t; int span = (n - 1) * gap; for (int i = -40 * span; i <= 41 * span; ++i) { float x = (float) (from * 5 + i) / (float) rate; t.push_back(x); t.push_back(nextafterf(x, 1e9f)); t.push_back(nextafterf(x, -1e9f)); } evaluate(c, m, t); c.state(m.pre);
}
// Curves of several dimensions.
namespace {
static FCDAnimationMultiCurve* multi(const vector<Curve>& d)
{
	FCDAnimationMultiCurve* k = new FCDAnimationMultiCurve(*kept, (uint32) d.size()); for (size_t i = 0; i < d[0].k.size(); ++i) { FCDAnimationMKey* x = k->AddKey((FUDaeInterpolation::Interpolation) d[0].k[i].ip); x->input = (float) d[0].k[i].x; for (size_t j = 0; j < d.size(); ++j) { const Key& e = d[j].k[i]; x->output[j] = (float) e.y; if (e.ip == BEZIER) { FCDAnimationMKeyBezier* z = (FCDAnimationMKeyBezier*) x; z->inTangent[j] = FMVector2((float) e.ix, (float) e.iy); z->outTangent[j] = FMVector2((float) e.ox, (float) e.oy); } } } return k;
}
}
SPACE(multis, 3)
{
	int n = c.range(0, c.deep ? 5 : 4), dims = c.range(1, 3); vector<Curve> d((size_t) dims); double x = c.flag() ? 0 : 3; double fi = c.pick(THIRDS), fo = c.pick(THIRDS); bool flat = c.flag();
	for (int i = 0; i < n; ++i) { int ip = c.pick(vector<int>{ STEP, LINEAR, BEZIER }); double g = n > 3 ? 1 + i % 2 : c.pick(vector<double>{ 1, 0.5, 0 }); for (int j = 0; j < dims; ++j) { Key e; e.x = x; e.y = (i * 5 + j * 3) % 7 - 2; e.ip = ip; d[j].k.push_back(e); } x += g; } for (auto& m : d) for (int i = 0; i < n; ++i) { double p = i ? m.k[i].x - m.k[i - 1].x : 1, q = i + 1 < n ? m.k[i + 1].x - m.k[i].x : 1; tangents(m.k[i], p, q, fi, 1, fo, -1); m.flat = flat; }
	c.op("%s%d dimensions: %s", flat ? "flat " : "", dims, d[0].show().c_str()); FCDAnimationMultiCurve* k = multi(d); Rel rel{ k }; struct F { FCDAnimationMultiCurve* k; F(FCDAnimationMultiCurve* a, bool f) : k(a) { k->Set2DCurveEvaluation(!f); } ~F() { k->Set2DCurveEvaluation(true); } } f(k, flat); CHECK(k->GetDimension() == (uint32) dims && k->GetKeyCount() == (size_t) n, "multi:keys", ".");
	vector<float> times = grid(d[0], 4, true); if (!n) times = { 0, 1 }; for (float t : times) { float out[4] = { 99, 99, 99, 99 }; k->Evaluate(t, out); for (int j = 0; j < dims; ++j) compare(c, d[j], t, out[j], "multi"); CHECK(out[dims] == 99, "multi:beyond", "."); } c.checkAsserts("the evaluation"); c.state(n * 4 + dims); c.nontrivial();
}
// Curves of several dimensions outside of their keys.
SPACE(outside, 1)
{
	vector<Curve> d(2); int ip = c.pick(vector<int>{ STEP, LINEAR }); for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { Key e; e.x = i; e.y = i * 2 + j; e.ip = ip; d[j].k.push_back(e); } d[0].pre = d[1].pre = c.choose(5); d[0].post = d[1].post = c.choose(5); c.op("%s", d[0].show().c_str()); FCDAnimationMultiCurve* k = multi(d); Rel rel{ k }; k->SetPreInfinity(INF[d[0].pre]); k->SetPostInfinity(INF[d[0].post]); CHECK(k->GetPreInfinity() == INF[d[0].pre] && k->GetPostInfinity() == INF[d[0].post], "multi:modes", ".");
	for (float t : grid(d[0], 2, true)) { float out[2]; k->Evaluate(t, out); for (int j = 0; j < 2; ++j) { d[j].slack = 0; Range r = d[j].at(t); bool before = t < 0, after = t > 2; static const char* M[] = { "constant", "linear", "cycle", "relative", "oscillate" }; CHECK(out[j] >= r.lo - 1e-3 && out[j] <= r.hi + 1e-3, before ? mc::strf("multi:before:%s", M[d[0].pre]) : after ? mc::strf("multi:after:%s", M[d[0].post]) : "multi:inside", "at %g is %g, should be %g", t, out[j], r.lo); } } c.nontrivial(); c.state(d[0].pre * 5 + d[0].post);
}
