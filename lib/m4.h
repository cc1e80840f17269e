// Double-precision 4x4 matrices: the oracle of the geometric checks. a[row][column], column vectors.
#pragma once
#include <cmath>
#include <string>
#include <algorithm>
#include "mc.h"
namespace m4 {
struct M { double a[4][4]; };
static inline M id() { M m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m.a[i][j] = i == j; return m; }
static inline M mul(const M& x, const M& y) { M m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { m.a[i][j] = 0; for (int k = 0; k < 4; ++k) m.a[i][j] += x.a[i][k] * y.a[k][j]; } return m; }
static inline M tr(double x, double y, double z) { M m = id(); m.a[0][3] = x; m.a[1][3] = y; m.a[2][3] = z; return m; }
static inline M sc(double x, double y, double z) { M m = id(); m.a[0][0] = x; m.a[1][1] = y; m.a[2][2] = z; return m; }
static inline M rot(double x, double y, double z, double t) { double l = sqrt(x * x + y * y + z * z), c = cos(t), s = sin(t), d = 1 - c; x /= l; y /= l; z /= l; M m = id(); double r[3][3] = { { c + x * x * d, x * y * d - z * s, x * z * d + y * s }, { y * x * d + z * s, c + y * y * d, y * z * d - x * s }, { z * x * d - y * s, z * y * d + x * s, c + z * z * d } }; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.a[i][j] = r[i][j]; return m; }
static inline M of(const FMMatrix44& f) { M m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m.a[i][j] = f.m[j][i]; return m; }
static inline FMMatrix44 lib(const M& m) { double v[16]; for (int i = 0; i < 16; ++i) v[i] = m.a[i / 4][i % 4]; return FMMatrix44(v); }
static inline double size(const M& m) { double s = 1; for (int i = 0; i < 16; ++i) s = std::max(s, fabs(m.a[i / 4][i % 4])); return s; }
static inline double diff(const M& x, const M& y) { double d = 0; for (int i = 0; i < 16; ++i) { double e = fabs(x.a[i / 4][i % 4] - y.a[i / 4][i % 4]); if (!(e <= d)) d = e; } return d; }
static inline std::string show(const M& m) { std::string s; for (int i = 0; i < 16; ++i) s += mc::strf("%s%.5g", i % 4 ? " " : i ? " / " : "", m.a[i / 4][i % 4]); return s; }
static const double PI = 3.14159265358979323846;
static inline double rad(double d) { return d * PI / 180; }
static inline void same(mc::Ctx& c, const FMMatrix44& g, const M& w, const char* key, double tol = 1e-4) { M x = of(g); double d = diff(x, w), t = tol * size(w); CHECK(d <= t, key, "is %s, should be %s", show(x).c_str(), show(w).c_str()); }
}
