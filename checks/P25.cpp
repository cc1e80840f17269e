// P25: bounding boxes and spheres against exact set definitions.
#include <cmath>
#include <cfloat>
#include <algorithm>
#include "FCollada.h"
#include "FUtils/FUBoundingBox.h"
#include "FUtils/FUBoundingSphere.h"
#include "FMath/FMVolume.h"
#include "mc.h"
const char* mc::property = "P25"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence of include/reset/transform operations up to a bound on boxes and spheres with grid coordinates, and every pair of volumes of a grid for the tests; a case is non-trivial when a non-empty volume was compared with the definition";
std::vector<std::string> mc::assumptions = { "volumes are closed sets", "coordinates stay within 1e3, comparisons allow 1e-3", "transforms are affine" };
using std::vector; using std::string;
struct V { double x[3]; };
static V v(double a, double b, double d) { V r; r.x[0] = a; r.x[1] = b; r.x[2] = d; return r; }
static FMVector3 lib(const V& a) { return FMVector3((float) a.x[0], (float) a.x[1], (float) a.x[2]); }
static V of(const FMVector3& a) { return v(a.x, a.y, a.z); }
static double dist(const V& a, const V& b) { double s = 0; for (int i = 0; i < 3; ++i) s += (a.x[i] - b.x[i]) * (a.x[i] - b.x[i]); return sqrt(s); }
struct Box { bool some = false; V lo, hi; void add(const V& p) { for (int i = 0; i < 3; ++i) { if (!some || p.x[i] < lo.x[i]) lo.x[i] = p.x[i]; if (!some || p.x[i] > hi.x[i]) hi.x[i] = p.x[i]; } some = true; }
	bool has(const V& p) const { if (!some) return false; for (int i = 0; i < 3; ++i) if (p.x[i] < lo.x[i] || p.x[i] > hi.x[i]) return false; return true; }
	vector<V> corners() const { vector<V> r; if (some) for (int k = 0; k < 8; ++k) r.push_back(v((k & 1 ? hi : lo).x[0], (k & 2 ? hi : lo).x[1], (k & 4 ? hi : lo).x[2])); return r; } };
static const double EPS = 2e-3;
static string show(const FUBoundingBox& b) { return mc::strf("[%g %g %g .. %g %g %g]", b.GetMin().x, b.GetMin().y, b.GetMin().z, b.GetMax().x, b.GetMax().y, b.GetMax().z); }
static string show(const FUBoundingSphere& b) { return mc::strf("(%g %g %g radius %g)", b.GetCenter().x, b.GetCenter().y, b.GetCenter().z, b.GetRadius()); }
static void same(mc::Ctx& c, const FUBoundingBox& g, const Box& w, const char* key)
{
	CHECK(g.IsValid() == w.some, key, "valid is %d: %s", (int) g.IsValid(), show(g).c_str()); if (!w.some) return; c.nontrivial();
	for (int i = 0; i < 3; ++i) CHECK(fabs(((const float*) g.GetMin())[i] - w.lo.x[i]) < EPS && fabs(((const float*) g.GetMax())[i] - w.hi.x[i]) < EPS, key, "is %s, should be [%g %g %g .. %g %g %g]", show(g).c_str(), w.lo.x[0], w.lo.x[1], w.lo.x[2], w.hi.x[0], w.hi.x[1], w.hi.x[2]);
}
// Affine maps: 3x3 part (row major) and translation.
struct Map { double a[9]; double t[3]; double norm; bool similar; const char* name; V operator()(const V& p) const { V r; for (int i = 0; i < 3; ++i) r.x[i] = a[3 * i] * p.x[0] + a[3 * i + 1] * p.x[1] + a[3 * i + 2] * p.x[2] + t[i]; return r; }
	FMMatrix44 mat() const { double m[16]; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m[4 * i + j] = a[3 * i + j]; m[4 * i + 3] = t[i]; m[12 + i] = 0; } m[15] = 1; return FMMatrix44(m); } };
static const double Q = 0.70710678118654752;
static const vector<Map> MAPS = {
	{ { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 0, 0, 0 }, 1, true, "identity" }, { { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 3, -4, 5 }, 1, true, "translation" }, { { 0, -1, 0, 1, 0, 0, 0, 0, 1 }, { 0, 0, 0 }, 1, true, "quarter turn" },
	{ { Q, -Q, 0, Q, Q, 0, 0, 0, 1 }, { 1, 0, 0 }, 1, true, "eighth turn" }, { { -2, 0, 0, 0, -2, 0, 0, 0, -2 }, { 0, 1, 0 }, 2, true, "inversion" }, { { 1, 0, 0, 0, 3, 0, 0, 0, 0.5 }, { 0, 0, 2 }, 3, false, "scale" },
	{ { 1, 1, 0, 0, 1, 0, 0, 0, 1 }, { 0, 0, 0 }, 1.618034, false, "shear" }, { { 1, 0, 0, 2, 1, 0, -1, 1, 1 }, { 0, 0, 0 }, 2.8, false, "general shear" }, { { 2 * Q, -2 * Q, 0, Q, Q, 0, 0, 0, 1 }, { 0, 0, -7 }, 2, false, "turn, then scale" }, { { 0, 0, 0, 0, 1, 0, 0, 0, 1 }, { 2, 0, 0 }, 1, false, "flatten" }, { { 0, 0, 1, 1, 0, 0, 0, -1, 0 }, { -1, -2, -3 }, 1, true, "axis swap" }, { { 1, -1, 1, 1, 1, -1, -1, 1, 1 }, { 0, 0, 0 }, 2, false, "signs A" }, { { -1, 1, -1, -2, -1, -1, 1, -1, -1 }, { 1, 0, 0 }, 2.5, false, "signs B" } };
static vector<V> points(bool deep) { vector<V> r = { v(0, 0, 0), v(1, 2, 3), v(-1, 0, 4), v(5, 5, 5), v(4, -3, -2), v(-6, -6, -6) }; if (deep) { r.push_back(v(0, 0, 9)); r.push_back(v(0.5, 0.25, -0.125)); r.push_back(v(7, 0, 0)); } return r; }
static const vector<V> PROBE = [] { vector<V> r; for (double x : { -7.0, -1.0, 0.0, 0.5, 3.0, 5.0 }) for (double y : { -6.0, -3.0, 0.0, 2.0, 5.5 }) for (double z : { -6.0, 0.0, 1.0, 4.0, 5.0 }) r.push_back(v(x, y, z)); return r; }();
SPACE(boxes, 2)
{
	FUBoundingBox b; Box w; int n = c.range(1, 4); static const vector<V> P[2] = { points(false), points(true) }; const vector<V>& p = P[c.deep];
	for (int s = 0; s < n; ++s)
	{
		int k = c.choose(5);
		if (k == 0) { V a = c.pick(p); c.op("include point %g %g %g", a.x[0], a.x[1], a.x[2]); b.Include(lib(a)); w.add(a); }
		else if (k == 1) { V a = c.pick(p); int d = c.choose(3); c.op("include box %g %g %g, size %d", a.x[0], a.x[1], a.x[2], d); V e = v(a.x[0] + d, a.x[1] + 2 * d, a.x[2] + 3 * d); b.Include(FUBoundingBox(lib(a), lib(e))); w.add(a); w.add(e); }
		else if (k == 2) { c.op("include an empty box"); b.Include(FUBoundingBox()); }
		else if (k == 3) { const Map& m = c.pick(MAPS); c.op("transform: %s", m.name); b = b.Transform(m.mat()); Box t; for (const V& x : w.corners()) t.add(m(x)); w = t; }
		else { if (!w.some) c.prune(); c.op("reset"); b.Reset(); w = Box(); }
		same(c, b, w, k == 3 ? "box:transform" : "box:include");
	}
	FUBoundingBox copy(b); CHECK(copy.Equals(b) && b.Equals(copy), "box:copy", "copy differs"); c.state(show(b));
	for (const V& x : PROBE) { bool in = w.has(x), edge = false; for (int i = 0; i < 3 && w.some; ++i) edge = edge || fabs(x.x[i] - w.lo.x[i]) < EPS || fabs(x.x[i] - w.hi.x[i]) < EPS; if (!edge) CHECK(b.Contains(lib(x)) == in, "box:contains", "%s and %g %g %g: %d", show(b).c_str(), x.x[0], x.x[1], x.x[2], (int) !in); }
	if (w.some) { CHECK(b.Contains(b.GetMin()) && b.Contains(b.GetMax()) && b.Contains(b.GetCenter()), "box:contains", "%s lacks its own corners", show(b).c_str()); if (w.lo.x[0] < w.hi.x[0] - 1) for (int i = 0; i < 3; ++i) { FUBoundingBox d = b; FMVector3 m = b.GetMin(), x = b.GetMax(); ((float*) m)[i] -= 1; ((float*) x)[i] += 1; d.SetMin(m); CHECK(!d.Equals(b), "box:equals", "coordinate %d of the minimum is ignored", i); d = b; d.SetMax(x); CHECK(!d.Equals(b) && !b.Equals(d), "box:equals", "coordinate %d of the maximum is ignored", i); } }
	FUBoundingBox inf = FUBoundingBox::Infinity; CHECK(inf.Overlaps(b) == w.some && b.Overlaps(inf) == w.some && inf.Transform(MAPS[3].mat()).Equals(inf), "box:infinity", "infinity and %s", show(b).c_str());
}
SPACE(boxPairs, 2)
{
	const vector<double> G = { -3, -1, 0, 2 }; const vector<double> S = { 0, 1, 3 };
	V lo, hi; for (int i = 0; i < 3; ++i) { lo.x[i] = c.pick(G); hi.x[i] = lo.x[i] + c.pick(S); }
	int f = c.choose(4); const V other[4][2] = { { v(0, 0, 0), v(0, 0, 0) }, { v(-1, -2, 0), v(1, 1, 1) }, { v(-3, 0, -5), v(-2, 9, 9) }, { v(-9, -9, -9), v(9, 9, 9) } }; c.op("box %g %g %g .. %g %g %g with box %d", lo.x[0], lo.x[1], lo.x[2], hi.x[0], hi.x[1], hi.x[2], f);
	FUBoundingBox a(lib(lo), lib(hi)), b(lib(other[f][0]), lib(other[f][1])); bool w = true; for (int i = 0; i < 3; ++i) w = w && lo.x[i] <= other[f][1].x[i] && other[f][0].x[i] <= hi.x[i];
	FMVector3 p(99, 98, 97), q(99, 98, 97); bool g = a.Overlaps(b, &p), h = b.Overlaps(a, &q); CHECK(g == w && h == w && a.Overlaps(b) == w, "box:overlaps", "%s and %s: %d %d", show(a).c_str(), show(b).c_str(), (int) g, (int) h); c.nontrivial();
	if (w) CHECK(a.Contains(p) && b.Contains(p) && a.Contains(q) && b.Contains(q) && p == q, "box:overlap-center", "%g %g %g and %g %g %g", p.x, p.y, p.z, q.x, q.y, q.z); else CHECK(p.x == 99 && q.x == 99, "box:overlap-center", "was written");
	if (w) for (int i = 0; i < 3; ++i) { double m = (std::max(lo.x[i], other[f][0].x[i]) + std::min(hi.x[i], other[f][1].x[i])) / 2; CHECK(fabs(((float*) p)[i] - m) < EPS, "box:overlap-center", "coordinate %d is %g, should be %g", i, ((float*) p)[i], m); }
	FUBoundingBox e; CHECK(!e.Overlaps(a) && !a.Overlaps(e) && !e.Overlaps(e) && !e.IsValid() && !e.Contains(lib(lo)) && a.IsValid(), "box:empty", "the empty box overlaps"); c.state(mc::strf("%d %g %g %g", (int) w, p.x, p.y, p.z));
}
struct Ball { V c; double r; };
SPACE(spheres, 2)
{
	FUBoundingSphere s; vector<Ball> in; int n = c.range(1, 3); static const vector<V> P[2] = { points(false), points(true) }; const vector<V>& p = P[c.deep]; const vector<double> R = { 0, 1, 2.5, 9 };
	bool some = false;
	for (int t = 0; t < n; ++t)
	{
		int k = c.choose(6); vector<Ball> add; bool empty = false; FUBoundingSphere before = s;
		if (k == 0) { V a = c.pick(p); c.op("include point %g %g %g", a.x[0], a.x[1], a.x[2]); s.Include(lib(a)); add.push_back({ a, 0 }); }
		else if (k == 1) { V a = c.pick(p); double r = c.pick(R); c.op("include sphere %g %g %g radius %g", a.x[0], a.x[1], a.x[2], r); s.Include(FUBoundingSphere(lib(a), (float) r)); add.push_back({ a, r }); if (!some) CHECK(s.GetRadius() == (float) r && s.GetCenter() == lib(a), "sphere:include", "first sphere gives %s", show(s).c_str()); }
		else if (k == 2) { V a = c.pick(p); int d = c.choose(3); c.op("include box %g %g %g, size %d", a.x[0], a.x[1], a.x[2], d); V e = v(a.x[0] + d, a.x[1] + 2 * d, a.x[2] + 3 * d); s.Include(FUBoundingBox(lib(a), lib(e))); Box b; b.add(a); b.add(e); for (const V& x : b.corners()) add.push_back({ x, 0 }); }
		else if (k == 3) { bool b = c.flag(); c.op("include an empty %s", b ? "box" : "sphere"); if (b) s.Include(FUBoundingBox()); else s.Include(FUBoundingSphere()); empty = true; }
		else if (k == 4) { const Map& m = c.pick(MAPS); c.op("transform: %s", m.name); s = s.Transform(m.mat());
			// The image of a ball is an ellipsoid: sample its surface, the extreme directions included.
			if (some) { vector<Ball> img; for (const Ball& b : in) { if (b.r == 0) { img.push_back({ m(b.c), 0 }); continue; } for (int i = 0; i < 24; ++i) for (int j = 0; j <= 12; ++j) { double u = i * M_PI / 12, w = j * M_PI / 12; V d = b.c; d.x[0] += b.r * sin(w) * cos(u); d.x[1] += b.r * sin(w) * sin(u); d.x[2] += b.r * cos(w); img.push_back({ m(d), 0 }); } } in = img;
				if (m.similar) CHECK(fabs(s.GetRadius() - before.GetRadius() * m.norm) < EPS * std::max(1.0f, s.GetRadius()), "sphere:transform-tight", "%s becomes %s", show(before).c_str(), show(s).c_str());
				V bc = of(before.GetCenter()); for (int i = 0; i < 24; ++i) for (int j = 0; j <= 12; ++j) { double u = i * M_PI / 12, w = j * M_PI / 12, r = before.GetRadius(); V d = bc; d.x[0] += r * sin(w) * cos(u); d.x[1] += r * sin(w) * sin(u); d.x[2] += r * cos(w); V e = m(d); CHECK(dist(e, of(s.GetCenter())) <= s.GetRadius() * (1 + 1e-4) + EPS, "sphere:transform", "%s becomes %s, which lacks %g %g %g", show(before).c_str(), show(s).c_str(), e.x[0], e.x[1], e.x[2]); } } }
		else { if (!some) c.prune(); c.op("reset"); s.Reset(); in.clear(); some = false; }
		if (!add.empty()) { bool all = some; for (const Ball& b : add) if (!some || dist(b.c, of(before.GetCenter())) + b.r > before.GetRadius() * (1 - 1e-5) - 1e-3) all = false; if (all) CHECK(s.GetRadius() == before.GetRadius() && s.GetCenter() == before.GetCenter(), "sphere:include-contained", "%s became %s", show(before).c_str(), show(s).c_str());
			double far = some ? before.GetRadius() : 0; V o = some ? of(before.GetCenter()) : add[0].c; for (const Ball& b : add) far = std::max(far, dist(b.c, o) + b.r); CHECK(s.GetRadius() <= far * (1 + 1e-4) + EPS, "sphere:include-tight", "%s became %s", show(before).c_str(), show(s).c_str());
			some = true; in.insert(in.end(), add.begin(), add.end()); }
		if (empty) CHECK(s.GetRadius() == before.GetRadius() && s.GetCenter() == before.GetCenter(), "sphere:include-empty", "%s became %s", show(before).c_str(), show(s).c_str());
		CHECK(s.IsValid() == some, "sphere:valid", "%s", show(s).c_str()); if (some) c.nontrivial();
		for (const Ball& b : in) { double d = dist(b.c, of(s.GetCenter())) + b.r; CHECK(d <= s.GetRadius() * (1 + 1e-4) + EPS, "sphere:include", "%s lacks (%g %g %g radius %g)", show(s).c_str(), b.c.x[0], b.c.x[1], b.c.x[2], b.r); }
	}
	c.state(show(s)); FUBoundingSphere copy(s); CHECK(copy.GetRadius() == s.GetRadius() && copy.GetCenter() == s.GetCenter(), "sphere:copy", "copy differs");
	for (const V& x : PROBE) { double d = dist(x, of(s.GetCenter())); if (some && fabs(d - s.GetRadius()) < EPS) continue; CHECK(s.Contains(lib(x)) == (some && d <= s.GetRadius()), "sphere:contains", "%s and %g %g %g", show(s).c_str(), x.x[0], x.x[1], x.x[2]); }
}
SPACE(spherePairs, 2)
{
	const vector<double> G = { -4, -1, 0, 2 }, R = { 0, 0.5, 2, 3, 8 }; V a = v(c.pick(G), c.pick(G), c.pick(G)); double r = c.pick(R), q = c.pick(R); V b = v(c.choose(3), 0, c.choose(2) * -3); c.op("sphere %g %g %g radius %g with %g %g %g radius %g", a.x[0], a.x[1], a.x[2], r, b.x[0], b.x[1], b.x[2], q);
	FUBoundingSphere s(lib(a), (float) r), t(lib(b), (float) q); double d = dist(a, b); bool w = d <= r + q; FMVector3 x(99, 98, 97), y = x; bool g = s.Overlaps(t, &x), h = t.Overlaps(s, &y); c.nontrivial();
	if (fabs(d - r - q) > 1e-5 || d == floor(d)) CHECK(g == w && h == w && s.Overlaps(t) == w, "sphere:overlaps", "%d and %d", (int) g, (int) h);
	if (g) for (const FMVector3& z : { x, y }) CHECK(dist(of(z), a) <= r + EPS && dist(of(z), b) <= q + EPS, "sphere:overlap-center", "%g %g %g is not in both", z.x, z.y, z.z);
	FUBoundingSphere e, ee(lib(a), -3.0f); CHECK(!e.Overlaps(s) && !s.Overlaps(e) && !e.Contains(lib(a)) && !ee.IsValid() && !ee.Contains(lib(a)) && !ee.Overlaps(s) && !s.Overlaps(ee) && !ee.Overlaps(ee), "sphere:empty", "an empty sphere overlaps"); c.state(mc::strf("%d %g %g %g", (int) g, x.x, x.y, x.z));
}
SPACE(mixedPairs, 2)
{
	const vector<double> G = { -5, -2, 0, 1, 4 }, R = { 0, 0.5, 2, 3, 8 }; V a = v(c.pick(G), c.pick(G), c.pick(G)); double r = c.pick(R); int f = c.choose(4); const V other[4][2] = { { v(0, 0, 0), v(0, 0, 0) }, { v(-1, -2, 0), v(1, 1, 1) }, { v(-3, 0, -5), v(-2, 9, 9) }, { v(-9, -9, -9), v(9, 9, 9) } }; c.op("sphere %g %g %g radius %g with box %d", a.x[0], a.x[1], a.x[2], r, f);
	FUBoundingSphere s(lib(a), (float) r); FUBoundingBox b(lib(other[f][0]), lib(other[f][1])); V n; for (int i = 0; i < 3; ++i) n.x[i] = std::max(other[f][0].x[i], std::min(other[f][1].x[i], a.x[i])); double d = dist(n, a); bool w = d <= r; c.nontrivial();
	FMVector3 x(99, 98, 97), y = x; bool g = s.Overlaps(b, &x), h = b.Overlaps(s, &y); if (fabs(d - r) > 1e-5 || d == floor(d)) CHECK(g == w && h == w && s.Overlaps(b) == w, "mixed:overlaps", "%d and %d, distance %g", (int) g, (int) h, d);
	if (g) for (const FMVector3& z : { x, y }) { CHECK(dist(of(z), a) <= r + EPS, "mixed:overlap-center", "%g %g %g is not in the sphere", z.x, z.y, z.z); for (int i = 0; i < 3; ++i) CHECK(((const float*) z)[i] >= other[f][0].x[i] - EPS && ((const float*) z)[i] <= other[f][1].x[i] + EPS, "mixed:overlap-center", "%g %g %g is not in the box", z.x, z.y, z.z); }
	FUBoundingBox e; FUBoundingSphere z; CHECK(!e.Overlaps(s) && !s.Overlaps(e) && !z.Overlaps(b) && !b.Overlaps(z), "mixed:empty", "an empty volume overlaps"); c.state(mc::strf("%d %g %g %g", (int) g, x.x, x.y, x.z));
}
