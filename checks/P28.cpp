// P28: base64, CRC-32 and date texts.
#include <ctime>
#include "FCollada.h"
#include "FUtils/FUBase64.h"
#include "FUtils/FUCrc32.h"
#include "FUtils/FUDateTime.h"
#include "FUtils/FUStringConversion.h"
#include "mc.h"
const char* mc::property = "P28"; const char* mc::level = "model_checking";
const char* mc::rule = "every byte block up to a bounded length over a byte alphabet that covers all 6-bit groups, every encoded text up to a bounded length over the alphabet, padding, white space and foreign characters, every text of up to three bytes for the checksum, and every date of a grid; a case is non-trivial when a result was compared with the independent definition";
std::vector<std::string> mc::assumptions = { "decoding ignores characters outside of the alphabet and stops at the first incomplete group", "dates use the form YYYY-MM-DDThh:mm:ssZ" };
using std::string; using std::vector;
static const char* A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string ref(const string& b) { string r; for (size_t i = 0; i < b.size(); i += 3) { unsigned n = (unsigned char) b[i] << 16; if (i + 1 < b.size()) n |= (unsigned char) b[i + 1] << 8; if (i + 2 < b.size()) n |= (unsigned char) b[i + 2]; r += A64[n >> 18]; r += A64[(n >> 12) & 63]; r += i + 1 < b.size() ? A64[(n >> 6) & 63] : '='; r += i + 2 < b.size() ? A64[n & 63] : '='; } return r; }
static UInt8List lib(const string& s) { UInt8List l; for (char x : s) l.push_back((uint8) x); return l; }
static string of(const UInt8List& l) { return string((const char*) l.begin(), (const char*) l.end()); }
static string hex(const string& s) { string r; for (unsigned char x : s) r += mc::strf("%02x", x); return r; }
static void roundTrip(mc::Ctx& c, const string& b)
{
	c.op("bytes %s", hex(b).c_str()); UInt8List in = lib(b), e, d; e.push_back(7); d.push_back(9); d.push_back(9); FUBase64::encode(in, e); CHECK(of(e) == ref(b), "base64:encode", "%s, should be %s", of(e).c_str(), ref(b).c_str()); CHECK(of(in) == b, "base64:input", "the input was changed");
	FUBase64::decode(e, d); CHECK(of(d) == b, "base64:decode", "%s, should be %s", hex(of(d)).c_str(), hex(b).c_str()); CHECK(of(e) == ref(b), "base64:input", "the input was changed"); c.nontrivial();
}
SPACE(blocks, 2)
{
	static const vector<int> B = { 0, 1, 3, 0x3f, 0x40, 0x7f, 0x80, 0xaa, 0xc0, 0xff }; int n = c.range(0, c.deep ? 6 : 5); string b; for (int i = 0; i < n; ++i) b += (char) c.pick(B); roundTrip(c, b); c.state(b);
}
SPACE(bytes, 2) { int n = c.range(1, 3), p = c.choose(n); string b(n, (char) 0x5a); b[p] = (char) c.choose(256); if (n > 1) b[(p + 1) % n] = (char) c.choose(256); roundTrip(c, b); }
SPACE(lengths, 1) { int n = c.range(0, 600); string b; int k = c.range(1, 8); for (int i = 0; i < n; ++i) b += (char) (i * 37 * k + (i >> 3)); roundTrip(c, b); c.state(n * 8 + k); }
SPACE(texts, 2)
{
	static const string A = string("AQ9/+=\n *") + (char) 0xe9; int n = c.range(0, c.deep ? 8 : 6); string t; for (int i = 0; i < n; ++i) t += A[c.choose((int) A.size())]; c.op("text '%s'", hex(t).c_str());
	UInt8List out; FUBase64::decode(lib(t), out); string f; bool other = false; for (char x : t) if (x == '=' || strchr(A64, x)) f += x; else other = true; (void) other;
	string w; bool regular = true; size_t i = 0; for (; i + 4 <= f.size(); i += 4)
	{ string q = f.substr(i, 4); size_t pad = 0; while (pad < 4 && q[3 - pad] == '=') ++pad; if (q.substr(0, 4 - pad).find('=') != string::npos || pad > 2 || (pad && i + 4 < f.size())) { regular = false; break; }
		unsigned v = 0; for (int k = 0; k < 4; ++k) v = v << 6 | (q[k] == '=' ? 0 : (unsigned) (strchr(A64, q[k]) - A64)); w += (char) (v >> 16); if (pad < 2) w += (char) (v >> 8); if (pad < 1) w += (char) v; }
	if (regular) { CHECK(of(out) == w, "base64:text", "'%s' gives %s, should be %s", t.c_str(), hex(of(out)).c_str(), hex(w).c_str()); c.nontrivial(); } else CHECK(out.size() <= t.size(), "base64:size", "%d bytes from %d characters", (int) out.size(), (int) t.size()); c.state(of(out));
}
SPACE(checksums, 2)
{
	int n = c.range(0, 3); string t; static const vector<int> B = { 1, 2, 'A', 'a', 0x7f, 0x80, 0xdb, 0xfe, 0xff, ' ' }; for (int i = 0; i < n; ++i) t += (char) (i == 0 || (c.deep && i == 1) ? 1 + c.choose(255) : c.pick(B)); c.op("checksum of %s", hex(t).c_str());
	auto crc = [](const string& s) { unsigned r = ~0u; for (unsigned char x : s) { r ^= x; for (int k = 0; k < 8; ++k) r = r & 1 ? (r >> 1) ^ 0xedb88320u : r >> 1; } return ~r; };
	FUCrc32::crc32 g = FUCrc32::CRC32(t.c_str()); CHECK(g == crc(t), "crc:value", "%08x, should be %08x", (unsigned) g, crc(t)); string l = t + t + "some longer text" + t; CHECK(FUCrc32::CRC32(l.c_str()) == crc(l), "crc:value", "of %s", hex(l).c_str()); c.nontrivial(); c.state((int) g);
}
SPACE(dates, 2)
{
	static const vector<int> Y = { 0, 1, 8, 99, 1900, 1970, 2008, 2038, 9999 }, H = { 0, 1, 8, 9, 10, 19, 23 }, S = { 0, 7, 8, 9, 10, 30, 59 }; int y = c.pick(Y), m = c.range(1, 12), d = c.deep ? c.range(1, 31) : c.pick(vector<int>{ 1, 8, 9, 10, 28, 31 }), h = c.pick(H), i = c.pick(S), s = c.pick(S); string t = mc::strf("%04d-%02d-%02dT%02d:%02d:%02dZ", y, m, d, h, i, s); c.op("%s", t.c_str());
	FUDateTime a; a.SetYear(y); a.SetMonth(m); a.SetDay(d); a.SetHour(h); a.SetMinutes(i); a.SetSeconds(s); fm::string g = FUStringConversion::ToString(a); CHECK(t == g.c_str() && g.size() == t.size(), "date:text", "%s", g.c_str()); fstring fg = FUStringConversion::ToFString(a); CHECK(t == FUStringConversion::ToString(fg).c_str(), "date:ftext", "%s", FUStringConversion::ToString(fg).c_str());
	auto is = [&](const FUDateTime& x) { return (int) x.GetYear() == y && (int) x.GetMonth() == m && (int) x.GetDay() == d && (int) x.GetHour() == h && (int) x.GetMinutes() == i && (int) x.GetSeconds() == s; };
	FUDateTime b; FUStringConversion::ToDateTime(g, b); CHECK(is(b), "date:parse", "%s reads as %u-%u-%uT%u:%u:%u", t.c_str(), b.GetYear(), b.GetMonth(), b.GetDay(), b.GetHour(), b.GetMinutes(), b.GetSeconds()); FUDateTime k(b), e; e = b; FUDateTime f; FUStringConversion::ToDateTime(fg, f); CHECK(is(k) && is(e) && is(f), "date:copy", "of %s", t.c_str()); c.nontrivial(); c.state(t);
	for (size_t n = 0; n < t.size(); n += 7) { FUDateTime x = b; FUStringConversion::ToDateTime(t.substr(0, n).c_str(), x); }
}
SPACE(now, 1)
{
	c.op("now"); time_t a = time(NULL); FUDateTime n = FUDateTime::GetNow(); time_t b = time(NULL); bool ok = false; for (time_t t = a; t <= b; ++t) { tm u = *gmtime(&t); ok = ok || ((int) n.GetYear() == u.tm_year + 1900 && (int) n.GetMonth() == u.tm_mon + 1 && (int) n.GetDay() == u.tm_mday && (int) n.GetHour() == u.tm_hour && (int) n.GetMinutes() == u.tm_min && (int) n.GetSeconds() == u.tm_sec); } CHECK(ok, "date:now", "%s", FUStringConversion::ToString(n).c_str()); c.nontrivial();
	FUDateTime d; CHECK(d.GetYear() == 1900 && d.GetMonth() == 1 && d.GetDay() == 1 && d.GetHour() == 0 && d.GetMinutes() == 0 && d.GetSeconds() == 0, "date:default", "%s", FUStringConversion::ToString(d).c_str());
}
