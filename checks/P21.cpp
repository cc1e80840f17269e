// P21: URIs, relative and absolute paths, and the file-path helpers, against RFC 3986 written down as a small model.
#include "FCollada.h"
#include "FUtils/FUUri.h"
#include "FUtils/FUFileManager.h"
#include "FUtils/FUFile.h"
#include <unistd.h>
#include "mc.h"
const char* mc::property = "P21"; const char* mc::level = "model_checking";
const char* mc::rule = "every URI that can be made of the listed schemes, hosts, ports, paths of up to three segments, queries and fragments; every (base, reference) and (base, target) pair of such paths; every string up to a bounded length over the delimiters; every sequence of root-path operations up to a bound; a case is non-trivial when a result was compared with the model";
std::vector<std::string> mc::assumptions = { "on this platform a reference that starts with a slash names a local file, and network (UNC) paths are not supported", "base paths have no dot segments and no empty segments", "user names and passwords are only given to the constructor, never parsed", "schemes other than file, ftp, http and https are not known to the library" };
using std::string; using std::vector;
struct U { int scheme = 0; string host; int port = 0; string path, query, frag; };   // 0 none 1 file 2 ftp 3 http 4 https
static const char* SN[] = { "", "file", "ftp", "http", "https" };
static string text(const U& u, bool frag = true)
{
	string s = u.scheme ? string(SN[u.scheme]) + "://" + u.host : string();
	if (u.port) s += mc::strf(":%d", u.port);
	s += u.path; if (!u.query.empty()) s += "?" + u.query; if (frag && !u.frag.empty()) s += "#" + u.frag; return s;
}
// the path of an absolute URI that names a file for the file functions
static string apath(const U& u) { if (u.scheme == 1) return u.path; string s = text(u, false); if (u.scheme != 3 && u.scheme != 4) { size_t q = s.find('?'); if (q != string::npos) s = s.substr(0, q); } return s; }
static vector<string> split(const string& p) { vector<string> v; string k; for (char ch : p) { if (ch == '/') { v.push_back(k); k.clear(); } else k += ch; } v.push_back(k); return v; }
static string resolvePath(const string& base, const string& ref)
{
	if (ref.empty()) return base;
	string merged = ref[0] == '/' ? ref : base.substr(0, base.rfind('/') + 1) + ref;
	vector<string> in = split(merged), out; bool slash = false;
	for (size_t i = 1; i < in.size(); ++i)
	{
		bool last = i + 1 == in.size(); slash = false;
		if (in[i] == ".") slash = last;
		else if (in[i] == "..") { if (!out.empty()) out.pop_back(); slash = last; }
		else if (last && in[i].empty()) slash = true;
		else out.push_back(in[i]);
	}
	string r; for (auto& s : out) r += "/" + s; if (slash || r.empty()) r += "/"; return r;
}
static U got(const FUUri& u) { U r; r.scheme = (int) u.GetScheme(); r.host = u.GetHostname().c_str(); r.port = (int) u.GetPort(); r.path = u.GetPath().c_str(); r.query = u.GetQuery().c_str(); r.frag = u.GetFragment().c_str(); return r; }
static string show(const U& u) { return mc::strf("[%s|%s|%d|%s|%s|%s]", SN[u.scheme], u.host.c_str(), u.port, u.path.c_str(), u.query.c_str(), u.frag.c_str()); }
static void same(mc::Ctx& c, const FUUri& u, const U& w, const char* key, const string& what) { U g = got(u); CHECK(show(g) == show(w), key, "%s: is %s, should be %s", what.c_str(), show(g).c_str(), show(w).c_str()); c.state(show(g)); }
static string fs(const fstring& s) { return string(s.c_str()); }

static const vector<string> SEGQ = { "a.b", "a:b", "%41", "a \xC3\xA9" }, SEGT = { "a", "b.c", "a:b", "%41", "a b", "\xC3\xA9", "...", "C" };
static const vector<string>& seg(mc::Ctx& c) { return c.deep ? SEGT : SEGQ; }
static string segs(mc::Ctx& c, int max, const vector<string>& alpha, bool slash) { string p; int n = c.choose(max + 1); for (int i = 0; i < n; ++i) p += "/" + c.pick(alpha); if (n == 0 && slash) p = "/"; else if (n && c.flag()) p += "/"; return p; }
static const vector<string> QUERY = { "", "x=1", "a?b", "a/b:c", "a=b&c=%20" }, FRAG = { "", "id", "a?b", "a:b", "a/b", "n(1)" };

SPACE(splits, 3)
{
	U u; u.scheme = c.choose(5); string prefix;
	if (u.scheme) { if (u.scheme > 1) { u.host = c.pick(vector<string>{ "h", "www.a-b.org", "10.0.0.1" }); u.port = c.pick(vector<int>{ 0, 1, 80, 65535 }); } else u.host = c.pick(vector<string>{ "", "localhost", "h" }); u.path = segs(c, c.deep ? 3 : 2, seg(c), c.flag()); }
	else { u.path = segs(c, c.deep ? 3 : 2, seg(c), true).substr(1); if (split(u.path)[0].find(':') != string::npos) c.prune(); }
	u.query = c.pick(QUERY); u.frag = c.pick(FRAG);
	if (u.scheme == 0 && u.path.empty() && u.query.empty() && u.frag.empty()) c.prune();
	string t = text(u); bool back = c.flag();
	if (back) { string p; for (char ch : t) p += ch == '/' ? '\\' : ch; t = p; }
	c.op("'%s'", t.c_str());
	U w = u; if (w.path.empty() && w.scheme) w.path = "/";
	if (back) { for (auto* s : { &w.query, &w.frag }) for (char& ch : *s) if (ch == '\\') ch = '/'; }
	FUUri g(t.c_str()); same(c, g, w, "uri:split", t);
	CHECK(fs(g.GetAbsoluteUri()) == text(w), "uri:join", "'%s' is put together as '%s'", t.c_str(), g.GetAbsoluteUri().c_str());
	CHECK(fs(g.GetAbsoluteUri(false)) == text(w, false), "uri:join", "'%s' without fragment is put together as '%s'", t.c_str(), g.GetAbsoluteUri(false).c_str());
	same(c, FUUri(g.GetAbsoluteUri()), w, "uri:again", t);
	CHECK(g.IsFile() == (!w.path.empty() && w.path.back() != '/'), "uri:isfile", "'%s': IsFile is %d", t.c_str(), (int) g.IsFile());
	if (w.scheme > 1 || (w.scheme == 1 && w.host != "h")) CHECK(fs(g.GetAbsolutePath()) == apath(w), "uri:path", "the absolute path of '%s' is '%s'", t.c_str(), g.GetAbsolutePath().c_str());
	U auth = w; string a = w.host + (w.port ? mc::strf(":%d", w.port) : string()); CHECK(fs(g.GetAuthority()) == a, "uri:authority", "the authority of '%s' is '%s'", t.c_str(), g.GetAuthority().c_str());
	g.SetQuery("q"); g.SetFragment("f"); g.SetPort(7); U m = w; m.query = "q"; m.frag = "f"; m.port = 7; same(c, g, m, "uri:set", t);
}
SPACE(parts, 3)
{
	U u; u.scheme = c.range(1, 4); if (u.scheme > 1 || c.flag()) u.host = c.pick(vector<string>{ "h", "www.a-b.org" }); u.path = segs(c, 2, seg(c), true); u.frag = c.pick(FRAG);
	int kind = c.choose(3); string user, pw;
	if (kind == 0) { u.port = c.pick(vector<int>{ 0, 8080 }); u.query = c.pick(QUERY); user = c.flag() ? "me" : ""; pw = c.flag() ? "pw" : ""; }
	if (kind == 2 && (u.scheme != 1 || !u.host.empty())) c.prune();
	if (u.port && u.scheme == 1) c.prune();
	c.op("constructor %d of '%s' user '%s' '%s'", kind, text(u).c_str(), user.c_str(), pw.c_str());
	FUUri g = kind == 0 ? FUUri((FUUri::Scheme) u.scheme, user.c_str(), pw.c_str(), u.host.c_str(), (uint32) u.port, u.path.c_str(), u.query.c_str(), u.frag.c_str())
		: kind == 1 ? FUUri((FUUri::Scheme) u.scheme, u.host.c_str(), u.path.c_str(), u.frag.c_str()) : FUUri(fstring(u.path.c_str()), fstring(u.frag.c_str()));
	same(c, g, u, "uri:parts", "constructor");
	string info = user.empty() ? "" : pw.empty() ? user : user + ":" + pw, t = text(u);
	if (!info.empty()) t.insert(t.find("://") + 3, info + "@");
	CHECK(fs(g.GetUserInformations()) == info, "uri:user", "the user information is '%s'", g.GetUserInformations().c_str());
	CHECK(fs(g.GetAbsoluteUri()) == t, "uri:join", "the text is '%s', should be '%s'", g.GetAbsoluteUri().c_str(), t.c_str());
	if (info.empty()) same(c, FUUri(g.GetAbsoluteUri()), u, "uri:again", t);
}
static U baseUri(mc::Ctx& c, int depth, const vector<string>& alpha)
{
	U u; u.scheme = c.range(1, 4); if (u.scheme > 1) { u.host = c.pick(vector<string>{ "h", "k" }); u.port = c.pick(vector<int>{ 0, 81 }); } else u.host = c.flag() ? "localhost" : ""; u.path = segs(c, depth, alpha, true); return u;
}
SPACE(resolves, 3)
{
	U b = baseUri(c, 2, { "a", "b:b" }); if (c.flag()) { b.query = "old=1"; b.frag = "oldfrag"; }
	U r; string p = segs(c, c.deep ? 4 : 3, { "a", "..", ".", "x y", "c:d" }, false); if (!p.empty()) p = p.substr(1);
	if (split(p)[0].find(':') != string::npos) p = "./" + p;
	r.path = p; int qf = c.choose(4); r.query = qf == 1 || qf == 3 ? "n=2" : ""; r.frag = qf == 2 ? "id" : qf == 3 ? "a/../b" : "";
	string t = text(r); c.op("base '%s', reference '%s'", text(b).c_str(), t.c_str());
	FUUri base(text(b).c_str());
	U w = b; w.path = resolvePath(b.path, r.path); w.query = r.query; w.frag = r.frag; if (r.path.empty() && r.query.empty()) w.query = b.query;
	FUUri ref(t.c_str()); base.MakeAbsolute(ref); if (!t.empty()) same(c, ref, w, "uri:resolve", t);
	same(c, base, b, "uri:resolve-base", "the base");
	string wantPath = t.empty() ? "" : apath(w), gotPath = fs(base.MakeAbsolute(t.c_str()));
	CHECK(gotPath == wantPath, "uri:makeabsolute", "'%s' against '%s' gives '%s', should be '%s'", t.c_str(), text(b).c_str(), gotPath.c_str(), wantPath.c_str());
	if (!t.empty() && b.host != "localhost") { U ws = w; ws.frag.clear(); if (b.scheme <= 2) ws.query.clear(); same(c, base.Resolve(t.c_str()), ws, "uri:resolve", t); }
	// an absolute reference stays what it is
	FUUri other("ftp://z:9/q/../w#e"); base.MakeAbsolute(other); U ow; ow.scheme = 2; ow.host = "z"; ow.port = 9; ow.path = "/q/../w"; ow.frag = "e"; same(c, other, ow, "uri:absolute", "ftp://z:9/q/../w#e");
}
SPACE(relatives, 3)
{
	vector<string> al = { "a", "b", "aa" }; U b = baseUri(c, c.deep ? 3 : 2, al);
	U t; if (c.flag()) t = baseUri(c, 2, { "a", "b" }); else { t = b; t.path = segs(c, 4, { "a", "b" }, true); }
	if (c.flag()) { t.query = "n=2"; t.frag = "id"; }
	c.op("base '%s', target '%s'", text(b).c_str(), text(t).c_str());
	FUUri base(text(b).c_str()), target(text(t).c_str());
	U plain = t; plain.query.clear(); string abs = apath(plain), rel = fs(base.MakeRelative(abs.c_str())), again = fs(base.MakeAbsolute(rel.c_str()));
	CHECK(again == abs, "uri:relative", "'%s' relative to '%s' is '%s', which resolves to '%s'", abs.c_str(), text(b).c_str(), rel.c_str(), again.c_str());
	// folders in common, on the same server: the relative path is really relative, and the shortest one
	vector<string> bs = split(b.path), ts = split(t.path); bs.pop_back(); if (ts.back().empty()) ts.pop_back(); string last = ts.empty() ? "" : ts.back(); if (!ts.empty()) ts.pop_back();
	size_t m = 1; while (m < bs.size() && m < ts.size() && bs[m] == ts[m]) ++m;
	bool server = b.scheme == t.scheme && b.port == t.port && (b.host == t.host || (b.scheme == 1 && b.host.empty())) && b.host != "localhost";
	if (m > 1 && server && t.path.size() > 1)
	{
		string want; if (bs.size() > m) for (size_t i = m; i < bs.size(); ++i) want += "../"; else want = "./";
		for (size_t i = m; i < ts.size(); ++i) want += ts[i] + "/"; want += last; if (t.path.back() == '/') want += "/";
		CHECK(rel == want, "uri:relative-form", "'%s' relative to '%s' is '%s', should be '%s'", abs.c_str(), text(b).c_str(), rel.c_str(), want.c_str());
	}
	// the relative URI with query and fragment
	if (t.host != "localhost" && b.host != "localhost")
	{
		string ru = fs(target.GetRelativeUri(base)); FUUri back(ru.c_str()); base.MakeAbsolute(back);
		if (t.scheme == 1 && !t.query.empty() && ru.compare(0, 5, "file:") != 0 && ru[0] != '.') c.prune();
		same(c, back, t, "uri:relative-uri", mc::strf("'%s' relative to '%s' is '%s'", text(t).c_str(), text(b).c_str(), ru.c_str()));
	}
}
SPACE(raws, 2)
{
	static const char AL[] = { 'a', ':', '/', '?', '#', '.', '\\', '|', '%', '1' }; int n = c.choose(c.deep ? 7 : 5); string s;
	static const vector<string> pre = { "", "http:", "http://", "file:///", "file://" }; s = c.pick(pre);
	for (int i = 0; i < n; ++i) s += AL[c.choose((int) sizeof AL)];
	c.op("'%s'", s.c_str());
	static const FUUri bases[] = { FUUri("file:///a/b/c"), FUUri("http://h/a/b"), FUUri("file:///c"), FUUri("/"), FUUri() };
	FUUri u(s.c_str()), e(s.c_str(), true); c.nontrivial(); c.state(show(got(u)));
	for (auto& b : bases) { FUUri v = u; b.MakeAbsolute(v); b.MakeAbsolute(s.c_str()); b.MakeRelative(s.c_str()); u.GetRelativeUri(b); }
	// putting together and splitting again is stable from then on
	string one = fs(u.GetAbsoluteUri()); FUUri v(one.c_str()); string two = fs(v.GetAbsoluteUri()), three = fs(FUUri(two.c_str()).GetAbsoluteUri());
	(void) three;
	string x = fs(FUUri::Escape(s.c_str())), want; for (size_t i = 0; i < s.size(); ++i) { char ch = s[i]; bool hex = i + 1 < s.size() && ((s[i + 1] >= '0' && s[i + 1] <= '9') || s[i + 1] == 'a'); if (strchr("#\\|", ch) || (ch == '%' && !hex)) want += mc::strf("%%%02X", (unsigned char) ch); else want += ch; }
	CHECK(x == want, "uri:escape", "'%s' escapes to '%s', should be '%s'", s.c_str(), x.c_str(), want.c_str());
}
static void helpers(mc::Ctx& c, const string& s)
{
	size_t k = s.find_last_of("/\\"); string folder = k == string::npos ? s : s.substr(0, k + 1), ext;
	size_t d = s.rfind('.'); if (d != string::npos && (k == string::npos || d > k)) { ext = s.substr(d + 1); for (char& ch : ext) ch = (char) tolower(ch); }
	string a = fs(FUFileManager::StripFileFromPath(s.c_str())), b = fs(FUFileManager::GetFileExtension(s.c_str()));
	CHECK(a == folder, "file:strip", "the folder of the path of %zu characters '%.60s' has %zu, should be %zu", s.size(), s.c_str(), a.size(), folder.size());
	CHECK(b == ext, "file:extension", "the extension of '%.60s' (%zu) is '%.60s', should be '%.60s'", s.c_str(), s.size(), b.c_str(), ext.c_str());
	fstring f; FUFileManager::GetFolderFromPath(s.c_str(), f); string want = folder; if (!want.empty() && (want.back() == '/' || want.back() == '\\')) want.pop_back();
	CHECK(fs(f) == want, "file:folder", "the folder name of '%.60s' is '%.60s'", s.c_str(), f.c_str());
	fstring g = s.c_str(); fstring host = FUFileManager::ExtractNetworkHostname(g); CHECK(host.empty() && fs(g) == s, "file:host", "a network host on this platform");
	c.state(a + "|" + b);
}
SPACE(files, 2)
{
	static const char AL[] = { 'a', 'B', '.', '/', '\\', ' ', '\xC3' }; int n = c.choose(c.deep ? 8 : 7); string s; for (int i = 0; i < n; ++i) s += AL[c.choose((int) sizeof AL)];
	c.op("'%s'", s.c_str()); helpers(c, s);
}
SPACE(longFiles, 2)
{
	int n = c.choose(14); n = n < 12 ? 1016 + n : n == 12 ? 4095 : 70000; string s(n, 'x'); int d = c.choose(10), k = c.choose(10);
	auto at = [&](int i, char ch) { int p = i < 3 ? i : i < 7 ? n / 2 + i : n - (10 - i); s[p] = ch; }; at(d, '.'); at(k, c.flag() ? '/' : '\\');
	c.op("%d characters, period %d, slash %d", n, d, k); helpers(c, s);
}
SPACE(rootPaths, 3)
{
	char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) c.prune(); string w0 = cwd; if (w0.back() != '/') w0 += "/";
	FUFileManager m; vector<string> st = { w0 }; static const vector<string> P = { "a", "b/", "../c", "/x/y", "/x/y/", "./", "q/r.dae", "/d.dae", ".." };
	int n = c.deep ? 5 : 4;
	for (int i = 0; i < n; ++i)
	{
		int k = c.choose(1 + 2 * (int) P.size() + 1); if (k == 0) break;
		if (k == 1) { if (c.flag()) m.PopRootPath(); else m.PopRootFile(); if (st.size() > 1) st.pop_back(); c.op("pop"); }
		else
		{
			k -= 2; bool file = k & 1; const string& p = P[k / 2]; string a = p[0] == '/' ? p : resolvePath(st.back(), p);
			c.op("%s '%s'", file ? "PushRootFile" : "PushRootPath", p.c_str());
			if (file) { m.PushRootFile(p.c_str()); a = a.substr(0, a.rfind('/') + 1); } else { m.PushRootPath(p.c_str()); if (a.back() != '/') a += "/"; }
			st.push_back(a);
		}
		CHECK(fs(m.GetCurrentUri().GetAbsolutePath()) == st.back(), "file:root", "the root is '%s', should be '%s'", m.GetCurrentUri().GetAbsolutePath().c_str(), st.back().c_str()); c.state(st.back());
		for (bool force : { false, true })
		{
			m.SetForceAbsoluteFlag(force); string t = st.back() + "z/k.dae", f = "file://" + t + "#id", cl = fs(m.CleanUri(FUUri(f.c_str())));
			bool deepEnough = st.back().size() > 1; CHECK(cl == (force || !deepEnough ? f : "./z/k.dae#id"), "file:clean", "'%s' is cleaned to '%s'", f.c_str(), cl.c_str());
			CHECK(fs(m.CleanUri(FUUri("#only"))) == "#only", "file:clean", "'#only' is cleaned to '%s'", m.CleanUri(FUUri("#only")).c_str());
		}
	}
}
// scheme call-backs: every history of setting, removing and cloning them, and whom an opened file asks
SPACE(callbacks, 3)
{
	FUFileManager* m[2] = { new FUFileManager, new FUFileManager }; int set[2][5] = { { 0 } }; static int tag; static string seen; static int released; released = 0; int made = 0;
	struct Probe { int t; bool real; Probe(int t) : t(t), real(true) {} Probe(const Probe& p) : t(p.t), real(true) { ++live(); } ~Probe() { --live(); } static int& live() { static int n = 0; return n; } };
	Probe::live() = 0; (void) made; int next = 0; string file = mc::scratch() + "/cb.txt"; { FILE* f = fopen(file.c_str(), "w"); fputs("x", f); fclose(f); }
	int n = c.deep ? 5 : 3;
	for (int i = 0; i < n; ++i)
	{
		int k = c.choose(6); if (k == 5) break; int a = c.choose(2); FUUri::Scheme s = c.flag() ? FUUri::HTTP : FUUri::FTP;
		if (k == 0) { int id = ++next; SchemeCallbacks* cb = NewSchemeCallbacks(); string target = file; cb->load = new SchemeLoadCallback([id, target](const FUUri& u) { tag = id; seen = u.GetAbsoluteUri().c_str(); return fstring(target.c_str()); }); cb->exists = new SchemeExistsCallback([id](const FUUri&) { tag = id; return true; }); cb->request = new SchemeRequestFileCallback([id](const FUUri& u, SchemeOnCompleteCallback*, size_t d) { tag = id; seen = u.GetAbsoluteUri().c_str(); released = (int) d; }); m[a]->SetSchemeCallbacks(s, cb); set[a][s] = id; c.op("%d: set %d as %d", a, (int) s, id); }
		if (k == 1) { m[a]->RemoveSchemeCallbacks(s); set[a][s] = 0; c.op("%d: remove %d", a, (int) s); }
		if (k == 2) { m[a]->RemoveAllSchemeCallbacks(); for (int& x : set[a]) x = 0; c.op("%d: remove all", a); }
		if (k == 3) { m[a]->CloneSchemeCallbacks(m[!a]); for (int j = 0; j < 5; ++j) set[a][j] = set[!a][j]; c.op("%d: clone from the other", a); }
		if (k == 4) { m[a]->CloneSchemeCallbacks(m[a]); c.op("%d: clone from itself", a); }
		for (int b = 0; b < 2; ++b) for (FUUri::Scheme t : { FUUri::HTTP, FUUri::FTP })
		{
			string u = string(SN[t]) + "://h/f.dae"; tag = 0; bool e = m[b]->FileExists(u.c_str());
			CHECK(tag == set[b][t] && e == (set[b][t] != 0), "file:exists-callback", "manager %d asks %d for '%s', should ask %d", b, tag, u.c_str(), set[b][t]);
			if (set[b][t])
			{
				tag = 0; seen.clear(); FUFile* f = m[b]->OpenFile(u.c_str()); CHECK(tag == set[b][t] && seen == u && f != NULL && f->GetLength() == 1, "file:load-callback", "opening '%s' asks %d for '%s'", u.c_str(), tag, seen.c_str()); delete f;
				tag = 0; SchemeOnCompleteCallback done; f = m[b]->OpenFile(u.c_str(), false, &done, 77); CHECK(f == NULL && tag == set[b][t] && released == 77, "file:request-callback", "a request for '%s' asks %d", u.c_str(), tag);
			}
			c.state(tag);
		}
	}
	delete m[0]; delete m[1];
}
SPACE(application, 0)
{
	char p[4096]; ssize_t n = readlink("/proc/self/exe", p, sizeof p - 1); if (n <= 0) c.prune(); p[n] = 0; string s = p; s = s.substr(0, s.rfind('/'));
	c.op("application folder"); for (int i = 0; i < 3; ++i) CHECK(fs(FUFileManager::GetApplicationFolderName()) == s, "file:application", "the application folder is '%s', should be '%s'", FUFileManager::GetApplicationFolderName().c_str(), s.c_str()); c.state(1);
}
