// P24: vector, matrix, quaternion and colour arithmetic against double-precision definitions.
#include <cmath>
#include <algorithm>
#include "FCollada.h"
#include "FMath/FMAngleAxis.h"
#include "FMath/FMSkew.h"
#include "FMath/FMLookAt.h"
#include "FMath/FMMatrix33.h"
#include "FMath/FMQuaternion.h"
#include "FMath/FMColor.h"
#include "FMath/FMVolume.h"
#include "mc.h"
const char* mc::property = "P24"; const char* mc::level = "model_checking";
const char* mc::rule = "every tuple of vectors, matrices, rotations, quaternions, colours and ranges from finite grids that include zero, negative, degenerate-looking and gimbal-lock values; a case is non-trivial when a result was compared with the double-precision definition";
std::vector<std::string> mc::assumptions = { "rotations are compared as matrices, to 1e-3 (single precision and the library's own tolerance of 1e-4)", "the product of a quaternion with a quaternion is the concatenation 'left first', and with a vector it turns by the conjugate, as the library's own tests fix it", "colour components are in [0,1]" };
using std::vector; using std::string;
struct M { double a[4][4]; };   // a[row][column]
static M id() { M m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m.a[i][j] = i == j; return m; }
static M mul(const M& x, const M& y) { M m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { m.a[i][j] = 0; for (int k = 0; k < 4; ++k) m.a[i][j] += x.a[i][k] * y.a[k][j]; } return m; }
static M tr(double x, double y, double z) { M m = id(); m.a[0][3] = x; m.a[1][3] = y; m.a[2][3] = z; return m; }
static M sc(double x, double y, double z) { M m = id(); m.a[0][0] = x; m.a[1][1] = y; m.a[2][2] = z; return m; }
static M rot(double x, double y, double z, double t)
{
	double l = sqrt(x * x + y * y + z * z), c = cos(t), s = sin(t), d = 1 - c; x /= l; y /= l; z /= l; M m = id();
	double r[3][3] = { { c + x * x * d, x * y * d - z * s, x * z * d + y * s }, { y * x * d + z * s, c + y * y * d, y * z * d - x * s }, { z * x * d - y * s, z * y * d + x * s, c + z * z * d } };
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.a[i][j] = r[i][j]; return m;
}
static M euler(double x, double y, double z) { return mul(mul(rot(1, 0, 0, x), rot(0, 1, 0, y)), rot(0, 0, 1, z)); }
static M of(const FMMatrix44& f) { M m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m.a[i][j] = f.m[j][i]; return m; }
static FMMatrix44 lib(const M& m) { double v[16]; for (int i = 0; i < 16; ++i) v[i] = m.a[i / 4][i % 4]; return FMMatrix44(v); }
static double size(const M& m) { double s = 1; for (int i = 0; i < 16; ++i) s = std::max(s, fabs(m.a[i / 4][i % 4])); return s; }
static double diff(const M& x, const M& y) { double d = 0; for (int i = 0; i < 16; ++i) { double e = fabs(x.a[i / 4][i % 4] - y.a[i / 4][i % 4]); if (!(e <= d)) d = e; } return d; }
static string show(const M& m) { string s; for (int i = 0; i < 16; ++i) s += mc::strf("%s%.5g", i % 4 ? " " : i ? " / " : "", m.a[i / 4][i % 4]); return s; }
static void same(mc::Ctx& c, const FMMatrix44& g, const M& w, const char* key, double tol = 1e-4) { M x = of(g); double d = diff(x, w), t = tol * size(w); CHECK(d <= t, key, "is %s, should be %s", show(x).c_str(), show(w).c_str()); c.state(show(x)); }
static const double PI = 3.14159265358979323846;
static void near(mc::Ctx& c, double g, double w, const char* key, double tol = 1e-4) { CHECK(fabs(g - w) <= tol * std::max(1.0, fabs(w)), key, "is %.7g, should be %.7g", g, w); }
static double det(const M& m) { double d = 0; int p[4] = { 0, 1, 2, 3 }; do { int inv = 0; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) inv += p[i] > p[j]; double t = inv & 1 ? -1 : 1; for (int i = 0; i < 4; ++i) t *= m.a[i][p[i]]; d += t; } while (std::next_permutation(p, p + 4)); return d; }
static M minv(const M& m) { M r; double d = det(m); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { M k = m; for (int q = 0; q < 4; ++q) { k.a[j][q] = 0; k.a[q][i] = 0; } k.a[j][i] = 1; r.a[i][j] = det(k) / d; } return r; }
static vector<M> generators(bool deep)
{
	vector<M> v = { id(), tr(1, -2, 3), tr(0, 0.5, -100), sc(2, 0.5, 1), sc(-1, 1, 3), sc(0.01, 0.01, 0.02), rot(0, 0, 1, PI / 2), rot(1, 1, 0, 1.0), rot(1, -2, 3, PI), euler(0.3, PI / 2, 0) };
	M g; double k[16] = { 1, 2, 0, -1, 3, 1, 1, 0, 0, -2, 1, 4, 1, 0, 2, 1 }; for (int i = 0; i < 16; ++i) g.a[i / 4][i % 4] = k[i]; v.push_back(g);
	if (deep) { v.push_back(mul(tr(3, 2, 1), euler(1, 2, 3))); v.push_back(mul(sc(1, 2, -3), rot(0, 1, 1, 0.7))); double q[16] = { 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 2, 0, 0, -1, 0 }; for (int i = 0; i < 16; ++i) g.a[i / 4][i % 4] = q[i]; v.push_back(g); }
	return v;
}
static const vector<double> VAL = { -2.5, -1, 0, 0.125, 1, 3 };
SPACE(matrices, 2)
{
	static const vector<M> G[2] = { generators(false), generators(true) }; const vector<M>& g = G[c.deep];
	M a = g[c.choose((int) g.size())], b = g[c.choose((int) g.size())], d = g[c.choose((int) g.size())];
	c.op("A %s", show(a).c_str()); c.note("B %s", show(b).c_str()); c.note("C %s", show(d).c_str());
	FMMatrix44 A = lib(a), B = lib(b), D = lib(d);
	same(c, A, a, "m44:set"); float fl[16]; for (int i = 0; i < 16; ++i) fl[i] = (float) a.a[i / 4][i % 4]; same(c, FMMatrix44(fl), a, "m44:set");
	FMMatrix44 copy(A), assigned; assigned = A; same(c, copy, a, "m44:copy"); same(c, assigned, a, "m44:copy");
	M ab = mul(a, b), abd = mul(ab, d);
	same(c, A * B, ab, "m44:product"); same(c, (A * B) * D, abd, "m44:associative", 1e-3); same(c, A * (B * D), abd, "m44:associative", 1e-3); { FMMatrix44 t = A; t *= B; same(c, t, ab, "m44:product"); }
	same(c, A * FMMatrix44::Identity, a, "m44:identity"); same(c, FMMatrix44::Identity * A, a, "m44:identity");
	M at; for (int i = 0; i < 16; ++i) at.a[i % 4][i / 4] = a.a[i / 4][i % 4]; same(c, A.Transposed(), at, "m44:transpose"); same(c, A.Transposed().Transposed(), a, "m44:transpose");
	double da = det(a); near(c, A.Determinant(), da, "m44:determinant", 1e-3); near(c, (A * B).Determinant(), da * det(b), "m44:determinant", 2e-2 * std::max(1.0, size(ab)));
	if (fabs(da) > 1e-7) { M ai = minv(a); same(c, A.Inverted(), ai, "m44:inverse", 1e-3); same(c, A * A.Inverted(), id(), "m44:inverse", 1e-3 * size(ai)); }
	M k; for (int i = 0; i < 16; ++i) k.a[i / 4][i % 4] = -1.5 * a.a[i / 4][i % 4]; same(c, -1.5f * A, k, "m44:scalar");
	double p[4] = { 1.5, -2, 0.25, 1 }, q[4], r[3]; for (int i = 0; i < 4; ++i) { q[i] = 0; for (int j = 0; j < 4; ++j) q[i] += a.a[i][j] * p[j]; if (i < 3) r[i] = q[i] - a.a[i][3]; }
	FMVector3 x = A.TransformCoordinate(FMVector3(1.5f, -2, 0.25f)), y = A.TransformVector(FMVector3(1.5f, -2, 0.25f)); FMVector4 z = A.TransformCoordinate(FMVector4(1.5f, -2, 0.25f, 1)), w = A * FMVector4(1.5f, -2, 0.25f, 1);
	for (int i = 0; i < 4; ++i) { if (i < 3) { near(c, ((float*) x)[i], q[i], "m44:point"); near(c, ((float*) y)[i], r[i], "m44:vector"); near(c, ((float*) &A.GetTranslation())[i], a.a[i][3], "m44:translation"); near(c, ((float*) &A.GetAxis(FMath::Y))[i], a.a[i][1], "m44:axis"); } near(c, ((float*) z)[i], q[i], "m44:point4"); near(c, ((float*) w)[i], q[i], "m44:point4"); }
	CHECK(IsEquivalent(A, copy) && (A == B) == (diff(a, b) < 1e-4), "m44:equal", "equality is %d", (int) (A == B));
	A.SetTranslation(FMVector3(7, 8, 9)); M ta = a; for (int i = 0; i < 3; ++i) ta.a[i][3] = 7 + i; same(c, A, ta, "m44:translation");
}
static const vector<double> DEG = { 0, 15, 45, 90, 120, 180, -30, -90, -179, 271, 450 }, DEGY = { 0, 30, 60, 85, 90, -15, -45, -85, -90, 120, 180, 269 };
static const vector<double>& grid(bool deep, const vector<double>& coarse) { static const vector<double> fine = [] { vector<double> v; for (int d = -180; d <= 540; d += 15) v.push_back(d); for (double d : { 89.5, 89.0, 90.5, 179.5, -89.5, 0.01, -0.5 }) v.push_back(d); return v; }(); return deep ? fine : coarse; }
static double rad(double d) { return d * PI / 180; }
SPACE(compose, 2)
{
	double s[3]; for (double& x : s) x = c.pick(c.deep ? vector<double>{ 0.1, 1, 2.5, 40 } : vector<double>{ 0.1, 1, 40 }); double x = rad(c.pick(DEG)), y = rad(c.pick(DEGY)), z = rad(c.pick(DEG)); int inv = c.flag() ? -1 : 1;
	c.op("scale %g %g %g, rotation %g %g %g, inverted %d", s[0], s[1], s[2], x, y, z, inv);
	M w = mul(mul(tr(1, -2, 30), euler(x, y, z)), sc(inv * s[0], inv * s[1], inv * s[2]));
	FMMatrix44 m; m.Recompose(FMVector3((float) s[0], (float) s[1], (float) s[2]), FMVector3((float) x, (float) y, (float) z), FMVector3(1, -2, 30), (float) inv); same(c, m, w, "m44:recompose", 1e-3);
	FMVector3 S, R, T; float I; m.Decompose(S, R, T, I); near(c, I, inv, "m44:inverted"); for (int i = 0; i < 3; ++i) near(c, ((float*) S)[i], s[i], "m44:scale", 1e-3); near(c, T.x, 1, "m44:translation"); near(c, T.y, -2, "m44:translation"); near(c, T.z, 30, "m44:translation");
	FMMatrix44 n; n.Recompose(S, R, T, I); same(c, n, w, "m44:decompose", 2e-2 * (fabs(cos(y)) < 0.02 ? 1 : 0.1));
}
static void sameRotation(mc::Ctx& c, const FMQuaternion& q, const M& w, const char* key, double tol = 1e-3) { same(c, q.ToMatrix(), w, key, tol); near(c, q.Length(), 1, key, 1e-3); }
SPACE(rotations, 2)
{
	double dx = c.pick(grid(c.deep, DEG)), dy = c.pick(grid(c.deep, DEGY)), dz = c.pick(grid(c.deep, DEG)), x = rad(dx), y = rad(dy), z = rad(dz); c.op("angles %g %g %g", dx, dy, dz); M w = euler(x, y, z);
	FMMatrix44 e = FMMatrix44::EulerRotationMatrix(FMVector3((float) x, (float) y, (float) z)); same(c, e, w, "rot:euler-matrix");
	same(c, FMMatrix44::XAxisRotationMatrix((float) x), rot(1, 0, 0, x), "rot:axis-matrix"); same(c, FMMatrix44::YAxisRotationMatrix((float) x), rot(0, 1, 0, x), "rot:axis-matrix"); same(c, FMMatrix44::ZAxisRotationMatrix((float) x), rot(0, 0, 1, x), "rot:axis-matrix");
	FMQuaternion q = FMQuaternion::EulerRotationQuaternion((float) x, (float) y, (float) z); sameRotation(c, q, w, "rot:euler-quaternion");
	sameRotation(c, FMQuaternion::MatrixRotationQuaternion(e), w, "rot:matrix-quaternion");
	double lock = fabs(cos(y)) < 0.02 ? 2e-2 : 1e-3;
	FMVector3 a = q.ToEuler(); same(c, FMMatrix44::EulerRotationMatrix(a), w, "rot:quaternion-euler", lock);
	FMVector3 prev((float) x + 6.5f, (float) y - 6.0f, (float) z + 0.3f); FMVector3 b = q.ToEuler(&prev); same(c, FMMatrix44::EulerRotationMatrix(b), w, "rot:quaternion-euler-previous", lock);
	for (int i = 0; i < 3; ++i) CHECK(fabs(((float*) b)[i] - ((float*) prev)[i]) < 2 * PI, "rot:previous", "angle %d is %g, far from the previous %g", i, ((float*) b)[i], ((float*) prev)[i]);
	FMVector3 ax; float an; q.ToAngleAxis(ax, an); near(c, ax.Length(), 1, "rot:axis"); sameRotation(c, FMQuaternion(ax, an), w, "rot:angle-axis", 2e-3); same(c, FMMatrix44::AxisRotationMatrix(ax, an), w, "rot:angle-axis-matrix", 2e-3);
	sameRotation(c, ~q, minv(w), "rot:conjugate"); sameRotation(c, FMQuaternion(-q.x, -q.y, -q.z, -q.w), w, "rot:negative");
	FMVector3 v = q * FMVector3(1, -2, 0.5f); M wi = minv(w); for (int i = 0; i < 3; ++i) near(c, ((float*) v)[i], wi.a[i][0] - 2 * wi.a[i][1] + 0.5 * wi.a[i][2], "rot:vector", 1e-3);
}
SPACE(axes, 2)
{
	double x = c.pick(VAL), y = c.pick(VAL), z = c.pick(VAL), t = rad(c.pick(grid(c.deep, { 0, 0.001, 45, 180, -90, 359.9, 720 }))); if (x == 0 && y == 0 && z == 0) c.prune(); double l = sqrt(x * x + y * y + z * z);
	c.op("axis %g %g %g angle %g", x, y, z, t); M w = rot(x, y, z, t);
	same(c, FMMatrix44::AxisRotationMatrix(FMVector3((float) x, (float) y, (float) z), (float) t), w, "rot:axis-angle-matrix", 1e-3);
	FMVector3 n((float) (x / l), (float) (y / l), (float) (z / l)); FMQuaternion q(n, (float) t); sameRotation(c, q, w, "rot:axis-angle-quaternion"); sameRotation(c, FMQuaternion::MatrixRotationQuaternion(q.ToMatrix()), w, "rot:matrix-quaternion", 2e-3);
	FMVector3 ax; float an; q.ToAngleAxis(ax, an); CHECK(an == an && ax.x == ax.x, "rot:angle-axis", "not a number"); same(c, FMMatrix44::AxisRotationMatrix(ax, an), w, "rot:angle-axis", 2e-3);
	for (int k = 0; k < 4; ++k) { double u = k * 0.9; FMQuaternion r(FMVector3(0, 0.6f, -0.8f), (float) u), p = q * r; sameRotation(c, p, mul(rot(0, 0.6, -0.8, u), w), "rot:product"); FMQuaternion s = q; s *= r; sameRotation(c, s, of(p.ToMatrix()), "rot:product"); }
	FMQuaternion g(q.x * 3, q.y * 3, q.z * 3, q.w * 3); sameRotation(c, g.Normalize(), w, "rot:normalize"); g.NormalizeIt(); sameRotation(c, g, w, "rot:normalize");
	if (fabs(t) > 0.01) CHECK(FMAngleAxis(n, (float) t) == FMAngleAxis(n * -1.0f, (float) -t) && FMAngleAxis(n, (float) t) == FMAngleAxis(n, (float) t) && !(FMAngleAxis(n, (float) t) == FMAngleAxis(n, (float) t + 1)), "rot:angle-axis-equal", "equality of the same rotation");
}
SPACE(slerps, 2)
{
	static const vector<double> A = { 0, 1, 20, 60, 90, 179, 180, 181, 270, 340, 359, 360, 500 };
	int i = c.choose(4), j = c.choose(4); const double AX[4][3] = { { 1, 0, 0 }, { 0, 0, 1 }, { 0.6, 0.8, 0 }, { -1, 0, 0 } }; double a = rad(c.pick(grid(c.deep, A))), b = rad(c.pick(grid(c.deep, A))), t = c.pick(vector<double>{ 0, 0.1, 0.5, 0.75, 1 });
	FMQuaternion p(FMVector3((float) AX[i][0], (float) AX[i][1], (float) AX[i][2]), (float) a), q(FMVector3((float) AX[j][0], (float) AX[j][1], (float) AX[j][2]), (float) b);
	c.op("from axis %d angle %g to axis %d angle %g at %g", i, a, j, b, t);
	double dot = (double) p.x * q.x + (double) p.y * q.y + (double) p.z * q.z + (double) p.w * q.w; double th = acos(std::min(1.0, fabs(dot)));
	FMQuaternion s = p.slerp(q, (float) t); near(c, s.Length(), 1, "slerp:unit", 1e-3);
	double dp = (double) p.x * s.x + (double) p.y * s.y + (double) p.z * s.z + (double) p.w * s.w, dq = (double) q.x * s.x + (double) q.y * s.y + (double) q.z * s.z + (double) q.w * s.w;
	near(c, acos(std::min(1.0, fabs(dp))), t * th, "slerp:arc", 4e-3); near(c, acos(std::min(1.0, fabs(dq))), (1 - t) * th, "slerp:arc-end", 4e-3); c.state(mc::strf("%g %g", dp, dq));
}
SPACE(vectors, 2)
{
	double a[3], b[3]; for (double& x : a) x = c.pick(VAL); for (double& x : b) x = c.pick(VAL); c.op("(%g %g %g) (%g %g %g)", a[0], a[1], a[2], b[0], b[1], b[2]);
	FMVector3 A((float) a[0], (float) a[1], (float) a[2]), B((float) b[0], (float) b[1], (float) b[2]); double ab = 0, aa = 0, bb = 0; for (int i = 0; i < 3; ++i) { ab += a[i] * b[i]; aa += a[i] * a[i]; bb += b[i] * b[i]; }
	auto v3 = [&](const FMVector3& g, double x, double y, double z, const char* key) { near(c, g.x, x, key); near(c, g.y, y, key); near(c, g.z, z, key); };
	v3(A + B, a[0] + b[0], a[1] + b[1], a[2] + b[2], "v3:add"); v3(A - B, a[0] - b[0], a[1] - b[1], a[2] - b[2], "v3:subtract"); v3(-A, -a[0], -a[1], -a[2], "v3:negate"); v3(+A, a[0], a[1], a[2], "v3:plus"); v3(A * 1.5f, 1.5 * a[0], 1.5 * a[1], 1.5 * a[2], "v3:scale"); v3(1.5f * A, 1.5 * a[0], 1.5 * a[1], 1.5 * a[2], "v3:scale"); v3(A / 4.0f, a[0] / 4, a[1] / 4, a[2] / 4, "v3:divide");
	{ FMVector3 t = A; t += B; v3(t, a[0] + b[0], a[1] + b[1], a[2] + b[2], "v3:add"); t -= B; v3(t, a[0], a[1], a[2], "v3:subtract"); t *= 3; v3(t, 3 * a[0], 3 * a[1], 3 * a[2], "v3:scale"); t /= 3; v3(t, a[0], a[1], a[2], "v3:divide"); }
	near(c, A * B, ab, "v3:dot"); v3(A ^ B, a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], "v3:cross"); near(c, A.LengthSquared(), aa, "v3:length"); near(c, A.Length(), sqrt(aa), "v3:length");
	FMVector3 n = A.Normalize(), k = A; k.NormalizeIt(); near(c, n.Length(), 1, "v3:normalize"); near(c, k.Length(), 1, "v3:normalize"); if (aa > 0) { double l = sqrt(aa); v3(n, a[0] / l, a[1] / l, a[2] / l, "v3:normalize"); v3(k, a[0] / l, a[1] / l, a[2] / l, "v3:normalize"); }
	if (bb > 0) { double s = ab / bb; v3(A.Projected(B), s * b[0], s * b[1], s * b[2], "v3:project"); FMVector3 t = A; t.Project(B); v3(t, s * b[0], s * b[1], s * b[2], "v3:project"); }
	FMVector3 t = A; t.ComponentMinimum(B); v3(t, std::max(a[0], b[0]), std::max(a[1], b[1]), std::max(a[2], b[2]), "v3:minimum"); t = A; t.ComponentMaximum(B); v3(t, std::min(a[0], b[0]), std::min(a[1], b[1]), std::min(a[2], b[2]), "v3:maximum");
	t = A; t.ComponentClamp(FMVector3(-1, -1, 0), FMVector3(1, 2, 1)); v3(t, std::min(1.0, std::max(-1.0, a[0])), std::min(2.0, std::max(-1.0, a[1])), std::min(1.0, std::max(0.0, a[2])), "v3:clamp");
	double f[3] = { fabs(a[0]), fabs(a[1]), fabs(a[2]) }; near(c, A.ComponentMinimum(), std::min(f[0], std::min(f[1], f[2])), "v3:component"); near(c, A.ComponentMaximum(), std::max(f[0], std::max(f[1], f[2])), "v3:component"); near(c, A.ComponentAverage(), (f[0] + f[1] + f[2]) / 3, "v3:component");
	bool eq = a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; CHECK((A == B) == eq && IsEquivalent(A, B) == eq, "v3:equal", "equality"); double src[5] = { 9, a[0], a[1], a[2], 9 }; float fsrc[5] = { 9, A.x, A.y, A.z, 9 }; v3(FMVector3(src, 1), a[0], a[1], a[2], "v3:read"); v3(FMVector3(fsrc, 1), a[0], a[1], a[2], "v3:read"); t = (const float*) (fsrc + 1); v3(t, a[0], a[1], a[2], "v3:read"); v3(FMVector3(FMVector4(A, 5)), a[0], a[1], a[2], "v3:read"); FMVector3 st; st.Set(A.x, A.y, A.z); v3(st, a[0], a[1], a[2], "v3:set");
	FMVector2 p(A.x, A.y), q(B.x, B.y), r = p + q; near(c, r.x, a[0] + b[0], "v2:add"); near(c, r.y, a[1] + b[1], "v2:add"); r = p - q; near(c, r.x, a[0] - b[0], "v2:subtract"); near(c, r.y, a[1] - b[1], "v2:subtract"); near(c, p * q, a[0] * b[0] + a[1] * b[1], "v2:dot"); r = p * 2.5f; near(c, r.x, 2.5 * a[0], "v2:scale"); near(c, r.y, 2.5 * a[1], "v2:scale"); r = 2.5f * p; near(c, r.y, 2.5 * a[1], "v2:scale"); near(c, r.x, 2.5 * a[0], "v2:scale"); r = p / 2.0f; near(c, r.x, a[0] / 2, "v2:divide"); near(c, r.y, a[1] / 2, "v2:divide"); near(c, p.LengthSquared(), a[0] * a[0] + a[1] * a[1], "v2:length"); near(c, p.Length(), sqrt(a[0] * a[0] + a[1] * a[1]), "v2:length"); near(c, p.Normalize().Length(), 1, "v2:normalize"); r = p; r.NormalizeIt(); near(c, r.Length(), 1, "v2:normalize"); r = p; r += q; near(c, r.y, a[1] + b[1], "v2:add"); r *= 2; near(c, r.x, 2 * (a[0] + b[0]), "v2:scale"); CHECK((p == q) == (a[0] == b[0] && a[1] == b[1]), "v2:equal", "equality");
	FMVector4 g(A, B.x), h(B, A.y), o = g + h; double ga[4] = { a[0], a[1], a[2], b[0] }, ha[4] = { b[0], b[1], b[2], a[1] }, gh = 0;
	for (int i = 0; i < 4; ++i) gh += ga[i] * ha[i]; near(c, g * h, gh, "v4:dot");
	FMVector4 mn = g, mx = g, sub = g - h, mu = g * 2.5f, um = 2.5f * g, acc = g; mn.ComponentMinimum(h); mx.ComponentMaximum(h); acc += h; acc *= 2; acc -= g; acc /= 4;
	for (int i = 0; i < 4; ++i) { near(c, ((float*) o)[i], ga[i] + ha[i], "v4:add"); near(c, ((float*) sub)[i], ga[i] - ha[i], "v4:subtract"); near(c, ((float*) mu)[i], 2.5 * ga[i], "v4:scale"); near(c, ((float*) um)[i], 2.5 * ga[i], "v4:scale"); near(c, ((float*) mn)[i], std::max(ga[i], ha[i]), "v4:minimum"); near(c, ((float*) mx)[i], std::min(ga[i], ha[i]), "v4:maximum"); near(c, ((float*) acc)[i], ((ga[i] + ha[i]) * 2 - ga[i]) / 4, "v4:assign"); }
	bool e4 = true; for (int i = 0; i < 4; ++i) e4 = e4 && ga[i] == ha[i]; CHECK((g == h) == e4 && IsEquivalent(g, h) == e4, "v4:equal", "equality"); c.state(mc::strf("%g %g", ab, gh));
	CHECK((FMSkew(A, B, 1) == FMSkew(B, A, 1)) == eq && (FMLookAt(A, B, A) == FMLookAt(B, A, A)) == eq && FMLookAt(A, B, A) == FMLookAt(A, B, A) && !(FMLookAt(A, A, A) == FMLookAt(A, A, A + FMVector3::XAxis)) && !(FMSkew(A, B, 1) == FMSkew(A, B, 2)), "skew:equal", "equality of skews and look-ats");
}
SPACE(lookAts, 2)
{
	double e[3], t[3], u[3]; for (double& x : t) x = c.pick(vector<double>{ -1, 0, 2 }); for (double& x : u) x = c.pick(vector<double>{ -1, 0, 1, 3 }); int k = c.choose(3); e[0] = k; e[1] = k == 2 ? -3 : 0; e[2] = k == 1 ? 5 : 0; if ((u[0] == 0 && u[1] == 0 && u[2] == 0) || (t[0] == 0 && t[1] == 0 && t[2] == 0)) c.prune();
	for (int i = 0; i < 3; ++i) t[i] += e[i];
	c.op("eye %g %g %g target %g %g %g up %g %g %g", e[0], e[1], e[2], t[0], t[1], t[2], u[0], u[1], u[2]);
	FMMatrix44 m = FMMatrix44::LookAtMatrix(FMVector3((float) e[0], (float) e[1], (float) e[2]), FMVector3((float) t[0], (float) t[1], (float) t[2]), FMVector3((float) u[0], (float) u[1], (float) u[2])); M g = of(m);
	double l = 0; for (int i = 0; i < 3; ++i) l += (t[i] - e[i]) * (t[i] - e[i]); l = sqrt(l);
	for (int i = 0; i < 3; ++i) { near(c, g.a[i][3], e[i], "lookat:eye"); near(c, -g.a[i][2], (t[i] - e[i]) / l, "lookat:forward"); near(c, g.a[3][i], 0, "lookat:affine"); }
	M r = g; for (int i = 0; i < 3; ++i) r.a[i][3] = 0; M rt; for (int i = 0; i < 16; ++i) rt.a[i % 4][i / 4] = r.a[i / 4][i % 4]; CHECK(diff(mul(r, rt), id()) < 1e-3, "lookat:orthonormal", "is %s", show(g).c_str()); near(c, det(r), 1, "lookat:handed", 1e-3);
	double su = 0, uu = 0; for (int i = 0; i < 3; ++i) { su += g.a[i][0] * u[i]; uu += g.a[i][1] * u[i]; } double ul = sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); near(c, su / ul, 0, "lookat:sideways", 1e-3); CHECK(uu > -1e-3, "lookat:up", "upside down"); c.state(show(g));
}
SPACE(matrices33, 2)
{
	auto pickM = [&](double w[3][3]) { int k = c.choose(c.deep ? 9 : 8); double a = k - 3; memset(w, 0, 9 * sizeof(double)); w[0][0] = w[1][1] = w[2][2] = 1; FMMatrix33 m = FMMatrix33::identity;
		if (k == 1) { m = FMMatrix33::TranslationMatrix(2, -3); w[0][2] = 2; w[1][2] = -3; } if (k == 2) { m = FMMatrix33::ScaleMatrix(0.005f, 0.004f); w[0][0] = 0.005; w[1][1] = 0.004; } if (k == 3) { m = FMMatrix33::ScaleMatrix(FMVector2(-2, 5)); w[0][0] = -2; w[1][1] = 5; } if (k == 8) { m = FMMatrix33::TranslationMatrix(FMVector2(-1, 7)); w[0][2] = -1; w[1][2] = 7; }
		if (k == 4 || k == 5) { m = FMMatrix33::RotationMatrix((float) a); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) w[i][j] = i == j ? cos(a) : (i < j ? 1 : -1) * sin(a); }
		if (k >= 6 && k < 8) { float f[9] = { 1, 2, 3, 0, 1, 4, 5, 6, 0 }; if (k == 7) { f[0] = 0; f[4] = -2; f[8] = 2; } m = FMMatrix33(f); for (int i = 0; i < 9; ++i) w[i / 3][i % 3] = f[i]; } return m; };
	double a[3][3], b[3][3], d[3][3]; FMMatrix33 A = pickM(a), B = pickM(b), D = pickM(d); c.op("matrices");
	auto eq = [&](const FMMatrix33& g, double w[3][3], const char* key, double tol) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CHECK(fabs(g.m[j][i] - w[i][j]) <= tol * std::max(1.0, fabs(w[i][j])), key, "(%d,%d) is %g, should be %g", i, j, g.m[j][i], w[i][j]); };
	eq(A, a, "m33:make", 1e-5); double t[3][3]; for (int i = 0; i < 9; ++i) t[i % 3][i / 3] = a[i / 3][i % 3]; eq(A.Transposed(), t, "m33:transpose", 1e-5);
	auto mul3 = [](double x[3][3], double y[3][3], double r[3][3]) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r[i][j] = 0; for (int k = 0; k < 3; ++k) r[i][j] += x[i][k] * y[k][j]; } };
	double ab[3][3], abd[3][3]; mul3(a, b, ab); mul3(ab, d, abd); eq(A * B, ab, "m33:product", 1e-4); eq((A * B) * D, abd, "m33:associative", 1e-3); eq(A * (B * D), abd, "m33:associative", 1e-3);
	double det3 = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
	if (det3 != 0) { double one[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }; eq(A * A.Inverted(), one, "m33:inverse", 1e-3); eq(A.Inverted() * A, one, "m33:inverse", 1e-3); } c.state(mc::strf("%g %g %g", ab[0][0], abd[1][2], abd[2][1]));
}
SPACE(colours, 1)
{
	int k = c.choose(256), n = c.range(1, 4), d = 255 - k; c.op("component %d of %d", k, n); float f[4] = { k / 255.0f, d / 255.0f, k / 255.0f, d / 255.0f }, g[4] = { -1, -1, -1, -1 };
	FMColor col((uint8) k, (uint8) d, (uint8) k, (uint8) d); col.ToFloats(g, n); for (int i = 0; i < 4; ++i) if (i < n) near(c, g[i], f[i], "colour:floats", 1e-6); else CHECK(g[i] == -1, "colour:floats", "component %d was written", i);
	FMColor back(g, n); for (int i = 0; i < 4; ++i) { int w = i < n ? (i & 1 ? d : k) : i == 3 ? 255 : 0; CHECK(back[i] == w, "colour:round-trip", "component %d of %d is %d, should be %d", i, n, (int) back[i], w); }
	if (n == 4) { FMVector4 v(col); FMColor b4(v); CHECK(b4.r == k && b4.g == d && b4.b == k && b4.a == d, "colour:vector4", "%d %d %d %d from %d %d", b4.r, b4.g, b4.b, b4.a, k, d); FMColor b3(FMVector3(v.x, v.y, v.z)); CHECK(b3.r == k && b3.g == d && b3.b == k && b3.a == 255, "colour:vector3", "%d %d %d", b3.r, b3.g, b3.b); }
	FMColor hex(((uint32) k << 24) | ((uint32) d << 16) | ((uint32) k << 8) | (uint32) d); CHECK(hex.r == k && hex.g == d && hex.b == k && hex.a == d, "colour:hex", "%d %d %d %d", hex.r, hex.g, hex.b, hex.a); CHECK(col.ComponentAverage() == (2 * k + d) / 3, "colour:average", "%d", col.ComponentAverage());
	FMColor half = 0.5f * col; CHECK(half.r == k / 2 && half.g == d / 2, "colour:scale", "half of %d is %d", k, half.r); c.state(k * 4 + n);
}
SPACE(hues, 1)
{
	int n = c.deep ? 24 : 12; double x = c.choose(n + 1) / (double) n, y = c.choose(n + 1) / (double) n, z = c.choose(n + 1) / (double) n; c.op("colour %g %g %g", x, y, z);
	FMVector4 v((float) x, (float) y, (float) z, 1); FMVector3 h = v.ToHSVColor(); CHECK(h.x >= 0 && h.x <= 1 && h.y >= 0 && h.y <= 1 && h.z >= 0 && h.z <= 1, "hsv:range", "is %g %g %g", h.x, h.y, h.z);
	double mx = std::max(x, std::max(y, z)), mn = std::min(x, std::min(y, z)); near(c, h.z, mx, "hsv:value"); if (mx > 0) near(c, h.y, (mx - mn) / mx, "hsv:saturation");
	if (mx > mn) { double hue = mx == x ? (y - z) / (mx - mn) : mx == y ? 2 + (z - x) / (mx - mn) : 4 + (x - y) / (mx - mn); hue /= 6; if (hue < 0) hue += 1; double e = fabs(h.x - hue); CHECK(e < 1e-3 || e > 0.999, "hsv:hue", "is %g, should be %g", h.x, hue); }
	FMVector4 b = FMVector4::FromHSVColor(h.x, h.y, h.z); near(c, b.x, x, "hsv:round-trip", 1e-3); near(c, b.y, y, "hsv:round-trip", 1e-3); near(c, b.z, z, "hsv:round-trip", 1e-3); near(c, b.w, 1, "hsv:alpha");
	FMVector4 r = FMVector4::FromHSVColor(1.0f, (float) x, (float) y), r0 = FMVector4::FromHSVColor(0.0f, (float) x, (float) y); for (int i = 0; i < 4; ++i) near(c, ((float*) r)[i], ((float*) r0)[i], "hsv:circle", 1e-3); c.state(mc::strf("%g %g %g", h.x, h.y, h.z));
}
SPACE(ranges, 1)
{
	int v = c.range(-60, 60), lo = c.range(-7, 3), len = c.range(1, 9), hi = lo + len; c.op("%d into [%d,%d]", v, lo, hi);
	int w = FMath::Wrap(v, lo, hi); CHECK(w >= lo && w <= hi && (w - v) % len == 0, "wrap:int", "%d", w); if (v >= lo && v <= hi) CHECK(w == v, "wrap:int", "%d", w);
	float f = FMath::Wrap(v + 0.25f, (float) lo, (float) hi); double k = (f - (v + 0.25)) / len; CHECK(f >= lo - 1e-3 && f <= hi + 1e-3 && fabs(k - floor(k + 0.5)) < 1e-3, "wrap:float", "%g", f); double d = FMath::Wrap(v + 0.25, (double) lo, (double) hi); near(c, d, f, "wrap:double");
	if (v >= 0 && lo >= 0) { uint32 u = FMath::Wrap((uint32) v, (uint32) lo, (uint32) hi); CHECK((int) u >= lo && (int) u <= hi && ((int) u - v) % len == 0, "wrap:uint", "%u", u); }
	CHECK(FMath::Clamp(v, lo, hi) == std::max(lo, std::min(hi, v)), "clamp", "%d", FMath::Clamp(v, lo, hi)); near(c, FMath::Clamp((float) v, lo, hi), std::max(lo, std::min(hi, v)), "clamp"); CHECK(FMath::Sign(v) == (v >= 0 ? 1 : -1) && FMath::Sign((float) v) == (v >= 0 ? 1 : -1), "sign", "of %d", v);
	near(c, FMath::RadToDeg(FMath::DegToRad((float) v)), v, "degrees"); near(c, FMath::DegToRad((float) v), v * PI / 180, "degrees"); near(c, FMath::RadToDeg((double) v), v * 180 / PI, "degrees", 1e-9); near(c, FMath::DegToRad((double) v), v * PI / 180, "degrees", 1e-9); c.state(w);
}
SPACE(volumes, 1)
{
	const vector<double> R = { 0, 0.5, 1, 2, 7 }; double a = c.pick(R), b = c.pick(R), p = c.pick(R), q = c.pick(R), h = c.pick(R); c.op("radii %g %g, %g %g, height %g", a, b, p, q, h); float A = (float) a, B = (float) b, H = (float) h;
	near(c, FMVolume::CalculateBoxVolume(FMVector3(A, B, H)), 8 * a * b * h, "volume:box"); near(c, FMVolume::CalculateSphereVolume(A), 4 / 3.0 * PI * a * a * a, "volume:sphere"); near(c, FMVolume::CalculateEllipsoidVolume(A, B, H), 4 / 3.0 * PI * a * b * h, "volume:ellipsoid");
	near(c, FMVolume::CalculateCylinderVolume(FMVector2(A, B), H), PI * a * b * h, "volume:cylinder"); near(c, FMVolume::CalculateConeVolume(FMVector2(A, B), H), PI * a * b * h / 3, "volume:cone"); near(c, FMVolume::CalculateCapsuleVolume(FMVector2(A, B), H), PI * a * b * h + 4 / 3.0 * PI * a * b * std::max(a, b), "volume:capsule"); near(c, FMVolume::CalculateEllipsoidEndVolume(FMVector2(A, B)), 4 / 3.0 * PI * a * b * std::max(a, b), "volume:end");
	double s = 0; int N = 60; for (int i = 0; i < N; ++i) { double t = (i + 0.5) / N; s += (a + (p - a) * t) * (b + (q - b) * t); } s *= PI * h / N; near(c, FMVolume::CalculateTaperedCylinderVolume(FMVector2(A, B), FMVector2((float) p, (float) q), H), s, "volume:tapered", 2e-3); c.state(mc::strf("%g", s));
}
