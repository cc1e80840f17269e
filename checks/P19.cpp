// P19: numbers and lists <-> text, against the XML schema's lexical rules and the C library's correctly rounded parser.
#include <cmath>
#include <cfloat>
#include <cstdlib>
#include <limits>
#include "FCollada.h"
#include "FUtils/FUStringConversion.h"
#include "FUtils/FUStringBuilder.h"
#include "mc.h"
const char* mc::property = "P19"; const char* mc::level = "model_checking";
const char* mc::rule = "every string up to a bounded length over the alphabet of number texts, every list text from an item and separator alphabet parsed into arrays of every earlier size, every integer around every power of two and ten, and a grid over all float exponents; a case is non-trivial when a value is compared with the reference parser";
std::vector<std::string> mc::assumptions = { "written floats carry six significant digits; magnitudes below the type's epsilon are written as zero (the documented precision of the writer)", "number texts have at most 60 digits and exponents of at most 3 digits" };
using std::string; using std::vector;
typedef FUStringConversion SC;

static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
// xs:float / xs:int token recognisers
static bool isFloat(const string& t)
{
	if (t == "INF" || t == "-INF" || t == "NaN") return true;
	size_t i = 0, d = 0;
	if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
	while (i < t.size() && isdigit((unsigned char) t[i])) { ++i; ++d; }
	if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit((unsigned char) t[i])) { ++i; ++d; } }
	if (d == 0) return false;
	if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
	{
		++i; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
		size_t x = 0; while (i < t.size() && isdigit((unsigned char) t[i])) { ++i; ++x; }
		if (!x) return false;
	}
	return i == t.size();
}
static bool isInt(const string& t, bool sign)
{
	size_t i = 0; if (i < t.size() && (t[i] == '+' || (sign && t[i] == '-'))) ++i;
	size_t d = 0; while (i < t.size() && isdigit((unsigned char) t[i])) { ++i; ++d; }
	if (d == 0 || i != t.size() || d > 18) return false;
	long long v = strtoll(t.c_str(), NULL, 10); return sign ? v >= INT32_MIN && v <= INT32_MAX : v <= UINT32_MAX;   // others are not of the type
}
static float refFloat(const string& t)
{
	if (t == "INF") return std::numeric_limits<float>::infinity(); if (t == "-INF") return -std::numeric_limits<float>::infinity();
	if (t == "NaN") return std::numeric_limits<float>::quiet_NaN();
	return strtof(t.c_str(), NULL);
}
static bool sameFloat(float a, float b)
{
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (std::isinf(a) || std::isinf(b))
	{
		if (a == b) return true;
		return std::fabs(std::isinf(a) ? b : a) >= FLT_MAX * (1 - 1e-6f);   // rounding at the very top
	}
	float d = std::fabs(a - b); return d <= 3e-7f * std::fabs(b) || d <= 3 * std::numeric_limits<float>::denorm_min();
}
static vector<string> split(const string& s)
{
	vector<string> r; size_t i = 0;
	for (;;) { while (i < s.size() && ws(s[i])) ++i; if (i >= s.size()) return r; size_t b = i; while (i < s.size() && !ws(s[i])) ++i; r.push_back(s.substr(b, i - b)); }
}
static string show(const string& s) { string o; for (unsigned char ch : s) o += ch < 33 ? mc::strf("\\x%02x", ch) : string(1, (char) ch); return o; }
// an exactly sized heap copy, so that the sanitizer sees any access behind the end
struct Exact { char* p; size_t n; Exact(const string& s) : n(s.size()) { p = (char*) malloc(n + 1); memcpy(p, s.c_str(), n + 1); } ~Exact() { free(p); } };

static void parseAll(mc::Ctx& c, const string& s)
{
	Exact e(s); vector<string> tok = split(s);
	// item by item, with the pointer advanced over exactly one item and the white space behind it
	{
		const char* p = e.p; size_t k = 0; size_t steps = 0; bool good = true; for (const string& t : tok) good = good && isFloat(t);
		while (*p && steps < s.size() + 2)
		{
			float v = SC::ToFloat(&p); ++steps;
			CHECK(p >= e.p && p <= e.p + e.n, "float:pointer", "'%s': the pointer left the text", show(s).c_str());
			if (good && k < tok.size()) CHECK(sameFloat(v, refFloat(tok[k])), "float:value", "'%s': item %zu parsed as %g, expected %g", show(s).c_str(), k, v, refFloat(tok[k]));
			++k;
		}
		if (good) CHECK(k == tok.size() || tok.empty(), "float:items", "'%s': %zu items consumed of %zu", show(s).c_str(), k, tok.size());
		CHECK(*p == 0, "float:end", "'%s': does not reach the end", show(s).c_str());
	}
	{
		const char* p = e.p; size_t k = 0, steps = 0; bool good = true; for (const string& t : tok) good = good && isInt(t, true);
		while (*p && steps < s.size() + 2)
		{
			int32 v = SC::ToInt32(&p); ++steps;
			CHECK(p >= e.p && p <= e.p + e.n, "int:pointer", "'%s': the pointer left the text", show(s).c_str());
			if (good && k < tok.size()) CHECK(v == (int32) strtoll(tok[k].c_str(), NULL, 10), "int:value", "'%s': item %zu parsed as %d", show(s).c_str(), k, v);
			++k;
		}
		if (good) CHECK(k == tok.size() || tok.empty(), "int:items", "'%s': %zu items consumed of %zu", show(s).c_str(), k, tok.size());
	}
	{
		const char* p = e.p; size_t k = 0, steps = 0; bool good = true; for (const string& t : tok) good = good && isInt(t, false);
		while (*p && steps < s.size() + 2)
		{
			uint32 v = SC::ToUInt32(&p); ++steps;
			CHECK(p >= e.p && p <= e.p + e.n, "uint:pointer", "'%s': the pointer left the text", show(s).c_str());
			if (good && k < tok.size()) CHECK(v == (uint32) strtoull(tok[k].c_str(), NULL, 10), "uint:value", "'%s': item %zu parsed as %u", show(s).c_str(), k, v);
			++k;
		}
		if (good) CHECK(k == tok.size() || tok.empty(), "uint:items", "'%s': %zu items consumed of %zu", show(s).c_str(), k, tok.size());
	}
	CHECK(SC::CountValues(e.p) == tok.size(), "count", "'%s': CountValues gives %zu, expected %zu", show(s).c_str(), SC::CountValues(e.p), tok.size());
	c.state(s);
}
static const char ALPHA[] = { '1', '0', '-', '.', ' ', 'e', '+', '9', '\n', 'I', 'N', 'F', 'a', '\r' };
SPACE(strings, 2)
{
	int n = c.choose(c.deep ? 7 : 6); string s; for (int i = 0; i < n; ++i) s += ALPHA[c.choose((int) sizeof ALPHA)];
	c.op("parse '%s'", show(s).c_str());
	parseAll(c, s);
}
// longer, well-formed floats: sign x integer part x fraction x exponent x surrounding white space
SPACE(float_forms, 3)
{
	static const char* sign[] = { "", "-", "+" };
	static const char* in[] = { "", "0", "7", "12", "0003", "16777217", "123456789", "340282346638528859811704183484516925440", "00000000000000000000000000000000000000000000000001" };
	static const char* fr[] = { "", ".", ".0", ".5", ".25", ".333333333", ".000001", ".00000000000000000000000000000000000000000000000001", ".99999999" };
	static const char* ex[] = { "", "e0", "E1", "e-1", "e+1", "e5", "e-5", "E+05", "e38", "e-38", "e-45", "e10", "e-007", "e20", "e40", "e-60" };
	static const char* before[] = { "", " ", "\r\n\t" }; static const char* behind[] = { "", "\r", " 1", "\r2", "\n-3" };
	string t = string(sign[c.choose(3)]) + in[c.choose(9)] + fr[c.choose(9)] + ex[c.choose(16)];
	if (!isFloat(t)) c.prune();
	string s = before[c.choose(3)] + t + behind[c.choose(5)]; c.op("parse '%s'", show(s).c_str()); parseAll(c, s);
}
// Every integer near a power of two or ten, written and read; and in text forms
SPACE(integers, 2)
{
	int which = c.choose(3), bits = c.choose(64), d = c.choose(7) - 3; bool ten = c.flag(), neg = c.flag();
	long double m = ten ? powl(10.0L, bits % 20) : powl(2.0L, bits); if (m > 1.8e19L) c.prune();
	unsigned long long u = (unsigned long long) m + (unsigned long long) (long long) d;
	FUSStringBuilder b; c.nontrivial();
	if (which == 0)
	{
		long long v = (long long) u; if (neg) v = -v; if (v < INT32_MIN || v > INT32_MAX) c.prune();
		b.append((int32) v); c.op("int32 %lld -> '%s'", v, b.ToCharPtr());
		CHECK(string(b.ToCharPtr()) == std::to_string(v), "int:write", "%lld written as '%s'", v, b.ToCharPtr());
		CHECK(SC::ToInt32(b.ToCharPtr()) == v, "int:roundtrip", "%lld reads back as %d", v, SC::ToInt32(b.ToCharPtr()));
		CHECK(string(TO_STRING((int32) v).c_str()) == std::to_string(v), "int:write", "TO_STRING(%lld)", v);
	}
	else if (which == 1)
	{
		if (neg || u > UINT32_MAX) c.prune(); b.append((uint32) u); c.op("uint32 %llu", u);
		CHECK(string(b.ToCharPtr()) == std::to_string(u), "uint:write", "%llu written as '%s'", u, b.ToCharPtr());
		CHECK(SC::ToUInt32(b.ToCharPtr()) == u, "uint:roundtrip", "%llu", u);
	}
	else
	{
		if (neg) c.prune(); b.append((uint64) u); c.op("uint64 %llu", u);
		CHECK(string(b.ToCharPtr()) == std::to_string(u), "uint64:write", "%llu written as '%s'", u, b.ToCharPtr());
	}
	c.state(b.ToCharPtr());
}
static void oneFloat(mc::Ctx& c, float f)
{
	FUSStringBuilder b; b.append(f); string t = b.ToCharPtr();
	if (!isFloat(t)) c.fail("float:write-form", "%.9g is written as '%s', which is no xs:float", f, t.c_str());
	float exp = std::fabs(f) < FLT_EPSILON ? 0.0f : f; float got = SC::ToFloat(t.c_str());
	if (std::isnan(f)) { CHECK(std::isnan(got), "float:nan", "NaN is written as '%s', read as %g", t.c_str(), got); return; }
	if (std::isinf(f)) { CHECK(got == f, "float:inf", "%g is written as '%s', read as %g", f, t.c_str(), got); return; }
	CHECK(std::fabs((double) got - exp) <= 5.1e-6 * std::fabs((double) exp), "float:roundtrip", "%.9g is written as '%s', read as %.9g", f, t.c_str(), got);
	CHECK(string(TO_STRING(f).c_str()) == t, "float:TO_STRING", "'%s'", TO_STRING(f).c_str());
	// the same through the double writer
	FUSStringBuilder bd; bd.append((double) f); string td = bd.ToCharPtr(); if (!isFloat(td)) c.fail("double:write-form", "%.9g is written as '%s'", f, td.c_str());
	double expd = std::fabs((double) f) < DBL_EPSILON ? 0.0 : f; float gotd = SC::ToFloat(td.c_str());
	CHECK(std::fabs((double) gotd - expd) <= 5.1e-6 * std::fabs(expd) + (std::fabs(expd) < 1.2e-38 ? 2e-45 : 0), "double:roundtrip", "%.9g is written as '%s', read as %.9g", f, td.c_str(), gotd);
}
SPACE(floats, 2)
{
	int e = c.choose(256); bool neg = c.flag(); int block = c.choose(16); c.op("exponent %d, block %d", e, block);
	int step = c.deep ? 64 : 8192;
	for (uint32_t m = 0; m < (1u << 19); m += (uint32_t) step)
	{
		uint32_t bits = (neg ? 0x80000000u : 0) | ((uint32_t) e << 23) | ((uint32_t) block << 19) | m; float f; memcpy(&f, &bits, 4); oneFloat(c, f);
		bits |= (uint32_t) step - 1; memcpy(&f, &bits, 4); oneFloat(c, f);
	}
	c.state(mc::strf("%d %d %d", e, neg, block));
}
SPACE(decimals, 2)
{
	// short decimals, the numbers that people write
	int exp = c.choose(25) - 12; bool neg = c.flag(); int lo = c.choose(10); c.op("decimals %d * 10^%d", lo * 1000, exp);
	for (int m = lo * 1000; m < lo * 1000 + 1000; ++m) oneFloat(c, (neg ? -1.0f : 1.0f) * (float) (m * pow(10.0, exp)));
	c.state(mc::strf("%d %d %d", exp, neg, lo));
}

// Lists
static const char* SEP[] = { " ", "\n", "\t", "\r", "\r\n  " };
static const char* ITEMS_F[] = { "1", "-2.5", "+3", "1e1", "INF", "NaN", "0.125E+1" };
static const char* ITEMS_I[] = { "1", "-20", "+3", "007", "2147483647", "-2147483648" };
static const char* ITEMS_U[] = { "0", "4294967295", "+3", "007", "12" };
static string listText(mc::Ctx& c, const char** items, int nItems, int maxLen, vector<string>& tok)
{
	int n = c.choose(maxLen + 1); static const char* edge[] = { "", " ", "\r\n" }; string s = edge[c.choose(3)];
	const char* sep = SEP[c.choose(5)];
	for (int i = 0; i < n; ++i) { const char* it = items[c.choose(nItems)]; tok.push_back(it); if (i) s += sep; s += it; }
	s += edge[c.choose(3)]; return s;
}
SPACE(list_float, 3)
{
	vector<string> tok; string s = listText(c, ITEMS_F, 7, c.deep ? 4 : 3, tok); size_t pre = (size_t) c.choose(5); Exact e(s);
	FloatList l; l.resize(pre, 77.0f); c.op("'%s' into %zu entries", show(s).c_str(), pre); SC::ToFloatList(e.p, l);
	CHECK(l.size() == tok.size(), "list-float:size", "'%s': %zu items, expected %zu", show(s).c_str(), l.size(), tok.size());
	for (size_t i = 0; i < tok.size(); ++i) CHECK(sameFloat(l[i], refFloat(tok[i])), "list-float:value", "'%s' item %zu is %g", show(s).c_str(), i, l[i]);
	// write and read back, also behind a prefix
	FUSStringBuilder b; bool prefix = c.flag(); if (prefix) b.append("5"); SC::ToString(b, l); FloatList l2; SC::ToFloatList(b.ToCharPtr(), l2);
	CHECK(l2.size() == l.size() + (prefix ? 1 : 0), "list-float:rewrite", "%zu items in '%s'", l2.size(), b.ToCharPtr());
	for (size_t i = 0; i < l.size(); ++i) CHECK(sameFloat(l2[i + (prefix ? 1 : 0)], l[i]), "list-float:rewrite", "item %zu in '%s'", i, b.ToCharPtr());
	c.state(s);
}
SPACE(list_int, 3)
{
	vector<string> tok; string s = listText(c, ITEMS_I, 6, c.deep ? 4 : 3, tok); size_t pre = (size_t) c.choose(5); Exact e(s); Int32List l; l.resize(pre, 77); c.op("'%s' into %zu", show(s).c_str(), pre);
	SC::ToInt32List(e.p, l);
	CHECK(l.size() == tok.size(), "list-int:size", "'%s': %zu items, expected %zu", show(s).c_str(), l.size(), tok.size());
	for (size_t i = 0; i < tok.size(); ++i) CHECK(l[i] == (int32) atoll(tok[i].c_str()), "list-int:value", "'%s' item %zu is %d", show(s).c_str(), i, l[i]);
	FUSStringBuilder b; bool prefix = c.flag(); if (prefix) b.append("5"); SC::ToString(b, l); Int32List l2; SC::ToInt32List(b.ToCharPtr(), l2);
	CHECK(l2.size() == l.size() + (prefix ? 1 : 0), "list-int:rewrite", "'%s'", b.ToCharPtr());
	for (size_t i = 0; i < l.size(); ++i) CHECK(l2[i + (prefix ? 1 : 0)] == l[i], "list-int:rewrite", "'%s'", b.ToCharPtr());
	c.state(s);
}
SPACE(list_uint, 3)
{
	vector<string> tok; string s = listText(c, ITEMS_U, 5, c.deep ? 4 : 3, tok); size_t pre = (size_t) c.choose(5); Exact e(s); UInt32List l; l.resize(pre, 77); c.op("'%s' into %zu", show(s).c_str(), pre);
	SC::ToUInt32List(e.p, l);
	CHECK(l.size() == tok.size(), "list-uint:size", "'%s': %zu items, expected %zu", show(s).c_str(), l.size(), tok.size());
	for (size_t i = 0; i < tok.size(); ++i) CHECK(l[i] == (uint32) strtoull(tok[i].c_str(), NULL, 10), "list-uint:value", "'%s' item %zu is %u", show(s).c_str(), i, l[i]);
	FUSStringBuilder b; bool prefix = c.flag(); if (prefix) b.append("5"); SC::ToString(b, l); UInt32List l2; SC::ToUInt32List(b.ToCharPtr(), l2);
	CHECK(l2.size() == l.size() + (prefix ? 1 : 0), "list-uint:rewrite", "'%s'", b.ToCharPtr());
	for (size_t i = 0; i < l.size(); ++i) CHECK(l2[i + (prefix ? 1 : 0)] == l[i], "list-uint:rewrite", "'%s'", b.ToCharPtr());
	c.state(s);
}
SPACE(list_string, 3)
{
	static const char* items[] = { "a", "joint1", "x.y(2)", "0" }; vector<string> tok; string s = listText(c, items, 4, c.deep ? 4 : 3, tok); size_t pre = (size_t) c.choose(5); Exact e(s);
	StringList l; l.resize(pre, fm::string("old")); FStringList fl; fl.resize(pre, fstring("old")); c.op("'%s' into %zu", show(s).c_str(), pre);
	SC::ToStringList(e.p, l); SC::ToFStringList(fstring(s.c_str()), fl);
	CHECK(l.size() == tok.size() && fl.size() == tok.size(), "list-string:size", "'%s': %zu/%zu items, expected %zu", show(s).c_str(), l.size(), fl.size(), tok.size());
	for (size_t i = 0; i < tok.size(); ++i) CHECK(tok[i] == l[i].c_str() && tok[i] == fl[i].c_str(), "list-string:value", "'%s' item %zu is '%s' / '%s'", show(s).c_str(), i, l[i].c_str(), fl[i].c_str());
	c.state(s);
}
SPACE(list_bool, 3)
{
	static const char* items[] = { "true", "false", "1", "0" }; vector<string> tok; string s = listText(c, items, 4, c.deep ? 5 : 4, tok); Exact e(s); BooleanList l; if (c.flag()) l.push_back(true); c.op("'%s'", show(s).c_str());
	SC::ToBooleanList(e.p, l);
	CHECK(l.size() == tok.size(), "list-bool:size", "'%s': %zu items, expected %zu", show(s).c_str(), l.size(), tok.size());
	for (size_t i = 0; i < tok.size(); ++i) CHECK(l[i] == (tok[i] == "true" || tok[i] == "1"), "list-bool:value", "'%s' item %zu", show(s).c_str(), i);
	if (tok.size() == 1) CHECK(SC::ToBoolean(e.p) == (tok[0] == "true" || tok[0] == "1"), "bool:value", "'%s'", show(s).c_str());
	CHECK(SC::ToBoolean(SC::ToString(true)) && !SC::ToBoolean(SC::ToString(false)), "bool:roundtrip", "round trip");
	c.state(s);
}
template <class L, class V, int D> static void vectors(mc::Ctx& c, void (*parse)(const char*, L&), const char* name)
{
	// whole vectors only
	int n = c.choose(4), pre = c.choose(4); const char* sep = SEP[c.choose(5)]; static const char* edge[] = { "", " ", "\r\n" }; string s = edge[c.choose(3)]; vector<float> e;
	int salt = c.choose(4);
	for (int i = 0; i < n * D; ++i) { const char* it = ITEMS_F[(i * 3 + salt) % 4]; if (i) s += sep; s += it; e.push_back(refFloat(it)); }
	s += edge[c.choose(3)]; Exact x(s); L l; l.resize((size_t) pre); c.op("%s '%s' into %d", name, show(s).c_str(), pre);
	parse(x.p, l);
	CHECK(l.size() == (size_t) n, "list-vector:size", "%s '%s': %zu items, expected %d", name, show(s).c_str(), l.size(), n);
	for (int i = 0; i < n; ++i) for (int k = 0; k < D; ++k) CHECK(sameFloat(((float*) &l[(size_t) i])[k], e[(size_t) (i * D + k)]), "list-vector:value", "%s '%s' item %d component %d", name, show(s).c_str(), i, k);
	c.state(string(name) + s);
}
SPACE(list_vectors, 2)
{
	switch (c.choose(4))
	{
	case 0: vectors<FMVector2List, FMVector2, 2>(c, [](const char* s, FMVector2List& l) { SC::ToVector2List(s, l); }, "vector2"); break;
	case 1: vectors<FMVector3List, FMVector3, 3>(c, [](const char* s, FMVector3List& l) { SC::ToVector3List(s, l); }, "vector3"); break;
	case 2: vectors<FMVector4List, FMVector4, 4>(c, [](const char* s, FMVector4List& l) { SC::ToVector4List(s, l); }, "vector4"); break;
	case 3:
	{
		int n = c.choose(3), pre = c.choose(3); string s = c.flag() ? " " : ""; vector<float> e; const char* sep = SEP[c.choose(5)];
		for (int i = 0; i < n * 16; ++i) { float f = (float) (i * 7 % 23) - 5.5f; if (i) s += sep; s += mc::strf("%g", f); e.push_back(f); }
		if (c.flag()) s += "\n"; FMMatrix44List l; l.resize((size_t) pre); SC::ToMatrixList(s.c_str(), l); c.op("%d matrices into %d", n, pre);
		CHECK(l.size() == (size_t) n, "list-matrix:size", "%zu matrices, expected %d", l.size(), n);
		// COLLADA texts are row by row; the library's m[column][row]
		for (int i = 0; i < n; ++i) for (int k = 0; k < 16; ++k) CHECK(l[(size_t) i].m[k % 4][k / 4] == e[(size_t) (i * 16 + k)], "list-matrix:value", "matrix %d element %d", i, k);
		for (int i = 0; i < n; ++i) { FMMatrix44 m = SC::ToMatrix(SC::ToString(l[(size_t) i])); for (int k = 0; k < 16; ++k) CHECK(m.m[k % 4][k / 4] == e[(size_t) (i * 16 + k)], "matrix:roundtrip", "element %d", k); }
		break;
	}
	}
}
SPACE(vector_roundtrip, 1)
{
	static const float V[] = { 0.0f, 1.0f, -2.5f, 123.456f, 1e-3f, -1e10f }; FMVector4 v(V[c.choose(6)], V[c.choose(6)], V[c.choose(6)], V[c.choose(6)]);
	c.op("%g %g %g %g", v.x, v.y, v.z, v.w); FMVector3 v3(v.x, v.y, v.z); FMVector2 v2(v.x, v.y);
	FMVector4 r4 = SC::ToVector4(SC::ToString(v)); FMVector3 r3 = SC::ToVector3(SC::ToString(v3)); FMVector2 r2 = SC::ToVector2(SC::ToString(v2));
	for (int k = 0; k < 4; ++k) { float x = ((float*) &v)[k]; CHECK(sameFloat(((float*) &r4)[k], x), "vector:roundtrip", "4:%d", k); if (k < 3) CHECK(sameFloat(((float*) &r3)[k], x), "vector:roundtrip", "3:%d", k); if (k < 2) CHECK(sameFloat(((float*) &r2)[k], x), "vector:roundtrip", "2:%d", k); }
	FUSStringBuilder b; b.append(v); b.append(v3); b.append(v2); FloatList l; SC::ToFloatList(b.ToCharPtr(), l); CHECK(l.size() == 9, "vector:append", "'%s'", b.ToCharPtr());
	for (int k = 0; k < 9; ++k) CHECK(sameFloat(l[(size_t) k], ((float*) &v)[k < 4 ? k : k < 7 ? k - 4 : k - 7]), "vector:append", "'%s'", b.ToCharPtr());
}
// Interleaved lists: tuples distributed over arrays, some of which are not wanted
SPACE(interleaved, 3)
{
	int stride = 1 + c.choose(3), n = c.choose(4), extra = c.choose(stride), pre = c.choose(4), mask = c.choose(1 << stride); bool ints = c.flag(); const char* sep = SEP[c.choose(5)];
	string s = c.flag() ? " " : ""; for (int i = 0; i < n * stride + extra; ++i) { if (i) s += sep; s += std::to_string(i * 3 + 1); }
	if (c.flag()) s += "\r\n"; Exact e(s); c.op("stride %d, %d tuples + %d, %d before, skipped %x, '%s'", stride, n, extra, pre, mask, show(s).c_str());
	FloatList f[3]; UInt32List u[3]; fm::pvector<FloatList> fa; fm::pvector<UInt32List> ua;
	for (int k = 0; k < stride; ++k) { f[k].resize((size_t) pre, 0.5f); u[k].resize((size_t) pre, 99u); fa.push_back(mask >> k & 1 ? NULL : f + k); ua.push_back(mask >> k & 1 ? NULL : u + k); }
	if (ints) SC::ToInterleavedUInt32List(e.p, ua); else SC::ToInterleavedFloatList(e.p, fa);
	for (int k = 0; k < stride; ++k)
	{
		if (mask >> k & 1) continue;
		size_t got = ints ? u[k].size() : f[k].size();
		CHECK(got == (size_t) n, "interleaved:size", "array %d has %zu entries, expected %d", k, got, n);
		for (int i = 0; i < n; ++i) CHECK((ints ? (float) u[k][(size_t) i] : f[k][(size_t) i]) == (float) ((i * stride + k) * 3 + 1), "interleaved:value", "array %d entry %d", k, i);
	}
	c.state(mc::strf("%d %d %d %d %d %d", stride, n, extra, pre, mask, ints));
}
SPACE(hexadecimal, 1)
{
	int a = c.choose(256); FUSStringBuilder b; b.appendHex((uint8) a); string t = b.ToCharPtr(); c.op("%02X", a);
	CHECK(t == mc::strf("%02X", a), "hex:write", "%d is written as '%s'", a, t.c_str());
	CHECK(SC::HexToUInt32(t.c_str()) == (uint32) a, "hex:read", "'%s'", t.c_str());
	for (int k = 0; k < 8; ++k) for (int up = 0; up < 2; ++up) for (int pre = 0; pre < 2; ++pre)
	{
		uint32 v = ((uint32) a * 2654435761u) >> (k * 4); string h = mc::strf(up ? "%X" : "%x", v); string s = (pre ? (up ? "0X" : "0x") : "") + h; Exact e(s + "g1");
		const char* p = e.p; CHECK(SC::HexToUInt32(&p) == v, "hex:read", "'%s'", s.c_str()); CHECK(p == e.p + s.size(), "hex:pointer", "'%s'", s.c_str());
		Exact e2(s); for (uint32 cnt = 1; cnt <= 8; ++cnt) { uint32 ex = (uint32) strtoul(h.substr(0, cnt).c_str(), NULL, 16); p = e2.p; CHECK(SC::HexToUInt32(&p, cnt) == ex, "hex:count", "'%s', %u digits", s.c_str(), cnt); }
	}
}
// Animation targets: "pointer", "pointer.member", "pointer(3)", "pointer(3)(2)", "pointer[3]"
SPACE(targets, 1)
{
	static const char* ptr[] = { "node/rotate", "", "a", "mat-effect/common" }; static const char* q[] = { "", ".X", ".ANGLE", "(0)", "(12)", "[7]", "(3)(2)", "(x)", "(", "(4", "[5.X", "()" }; static const int idx[] = { -1, -1, -1, 0, 12, 7, 3, -1, -1, -1, -1, 0 };
	string p = ptr[c.choose(4)]; int k = c.choose(12); fm::string a("old"), b("old"); c.op("%s%s", p.c_str(), q[k]);
	SC::SplitTarget(fm::string((p + q[k]).c_str()), a, b);
	CHECK(p == a.c_str() && string(q[k]) == b.c_str(), "target:split", "'%s%s' -> '%s' '%s'", p.c_str(), q[k], a.c_str(), b.c_str());
	if (k != 11) { Exact e(q[k]); CHECK(SC::ParseQualifier(e.p) == idx[k], "target:index", "'%s' -> %d", q[k], SC::ParseQualifier(e.p)); }
}
