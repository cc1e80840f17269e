// P03: import survives malformed and incomplete documents.
#include "trip.h"
#include <dirent.h>
#include <algorithm>
const char* mc::property = "P03"; const char* mc::level = "fault_enumeration";
const char* mc::rule = "every single mutation (each kind, at each element, attribute and text) of a set of documents that together use every feature is imported, traversed, exported and released; every truncation of them; a case counts when the import returned and the document was walked";
std::vector<std::string> mc::assumptions = { "numbers in the mutated texts are at most 100000, so that memory suffices", "library assertions with a fallback count as diagnostics" };
using std::string; using std::vector;
static string problems;
static string dataDir() { string f = __FILE__; size_t s = f.rfind('/'); f = s == string::npos ? "." : f.substr(0, s); return f + "/../data/p03"; }
struct Attr { size_t name, value, end; };
struct Elem { size_t start, open, close, end; int parent; string name; vector<Attr> attrs; bool leaf; int prev; };   // <start ... open>content<close ...>end
struct Base { string name, text; vector<Elem> es; vector<string> ids; };
static vector<Base> BASES;
static void scan(Base& b)
{
	const string& t = b.text; vector<int> stack; vector<int> last(1, -1); size_t i = 0;
	while ((i = t.find('<', i)) != string::npos)
	{
		if (t[i + 1] == '?' || t[i + 1] == '!') { i = t.find('>', i); continue; }
		if (t[i + 1] == '/') { Elem& e = b.es[(size_t) stack.back()]; e.close = i; i = t.find('>', i) + 1; e.end = i; stack.pop_back(); last.pop_back(); continue; }
		Elem e; e.start = i; e.parent = stack.empty() ? -1 : stack.back(); e.leaf = true; e.prev = last.back(); size_t j = i + 1; while (isalnum((unsigned char) t[j]) || t[j] == '_' || t[j] == ':') ++j; e.name = t.substr(i + 1, j - i - 1);
		while (t[j] != '>' && t[j] != '/') { if (isspace((unsigned char) t[j])) { ++j; continue; } Attr a; a.name = j; j = t.find('"', j) + 1; a.value = j; j = t.find('"', j); a.end = j; ++j; e.attrs.push_back(a); if (t.compare(a.name, 4, "id=\"") == 0) b.ids.push_back(t.substr(a.value, a.end - a.value)); }
		if (e.parent >= 0) b.es[(size_t) e.parent].leaf = false; last.back() = (int) b.es.size();
		if (t[j] == '/') { e.open = e.close = e.end = j + 2; b.es.push_back(e); i = j + 2; }
		else { e.open = j + 1; e.close = e.end = 0; b.es.push_back(e); stack.push_back((int) b.es.size() - 1); last.push_back(-1); i = j + 1; }
	}
}
static void load()
{
	vector<string> names; if (DIR* d = opendir(dataDir().c_str())) { while (dirent* e = readdir(d)) { string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".dae") names.push_back(n); } closedir(d); } std::sort(names.begin(), names.end());
	for (const string& n : names) { Base b; b.name = n; b.text = trip::slurp(dataDir() + "/" + n); scan(b); BASES.push_back(b); }
}
static bool init = (mc::workerInit = [] { FCollada::Initialize(); static char me; for (int l = 1; l < 3; ++l) FUError::AddErrorCallback((FUError::Level) l, &me, [](FUError::Level, uint32 code, uint32 line) { problems += mc::strf("'%s' at line %u; ", FUError::GetErrorString((FUError::Code) code), line); }); }, load(), true);
// The influences of a skin refer only to its joints.
static void consistent(mc::Ctx& c, FCDocument* d)
{
	for (size_t i = 0; i < d->GetControllerLibrary()->GetEntityCount(); ++i)
	{
		FCDController* k = d->GetControllerLibrary()->GetEntity(i); if (!k->IsSkin()) continue; const FCDSkinController* s = k->GetSkinController(); for (size_t j = 0; j < s->GetInfluenceCount(); ++j) for (size_t m = 0; m < s->GetVertexInfluence(j)->GetPairCount(); ++m)
		{ int x = s->GetVertexInfluence(j)->GetPair(m)->jointIndex; CHECK(x >= -1 && x < (int) s->GetJointCount(), "missing-joint", "a skin has %zu joints, and an influence of joint %d", s->GetJointCount(), x); }
	}
}
static bool walk(mc::Ctx& c, const string& text, bool exporting = true)
{
	c.tolerateAsserts = true; problems = ""; bool ok; { FUObjectRef<FCDocument> d = FCollada::NewTopDocument(); string file = mc::scratch() + "/in.dae";
		ok = FCollada::LoadDocumentFromMemory(file.c_str(), d, (void*) text.data(), text.size());
		CHECK(ok || !problems.empty(), "failure-without-report", "the import failed, and no error was reported");
		string s = Dump::of(d); c.state(s); consistent(c, d);
		for (int again = 0; again < 3; ++again) { FUObjectRef<FCDocument> e = FCollada::NewTopDocument(); FCollada::LoadDocumentFromMemory(file.c_str(), e, (void*) text.data(), text.size()); string t = Dump::of(e); if (s == t) break; if (again < 2) { s = t; continue; }   // dates that are not in the text are those of the import
			{ size_t i = 0; while (i < s.size() && i < t.size() && s[i] == t[i]) ++i; i = i < 60 ? 0 : i - 60; CHECK(false, "not-deterministic", "importing the text twice gives '%s' and '%s'", s.substr(i, 140).c_str(), t.substr(i, 140).c_str()); } }
		if (exporting) { FCollada::SaveDocument(d, (mc::scratch() + "/out.dae").c_str()); FUObjectRef<FCDocument> e = FCollada::NewTopDocument(); problems = ""; FCollada::LoadDocumentFromFile(e, (mc::scratch() + "/out.dae").c_str()); }
	}
	c.nontrivial(); return ok;
}
static vector<string> tokens(const string& s) { vector<string> r; std::istringstream i(s); string t; while (i >> t) r.push_back(t); return r; }
static string join(const vector<string>& v, size_t from, size_t to) { string s; for (size_t i = from; i < to; ++i) { if (i > from) s += ' '; s += v[i]; } return s; }
struct Edit { size_t at, len; string put, what; };
static Edit structural(mc::Ctx& c, const Base& b, const Elem& e, int k)
{
	const string& t = b.text; string whole = t.substr(e.start, e.end - e.start);
	switch (k)
	{
	case 0: return { e.start, e.end - e.start, "", "delete <" + e.name + ">" };
	case 1: return { e.end, 0, whole, "duplicate <" + e.name + ">" };
	case 2: { string w = whole; if (e.close < e.end) w.replace(e.close - e.start + 2, e.name.size(), "zzz"); w.replace(1, e.name.size(), "zzz"); return { e.start, e.end - e.start, w, "rename <" + e.name + ">" }; }
	case 3: if (e.open == e.close) c.prune(); return { e.open, e.close - e.open, "", "empty <" + e.name + ">" };
	case 4: { if (e.prev < 0) c.prune(); const Elem& p = b.es[(size_t) e.prev]; return { p.start, e.end - p.start, whole + t.substr(p.start, p.end - p.start), "move <" + e.name + "> before <" + p.name + ">" }; }
	case 5: if (e.leaf) c.prune(); return { e.start, e.end - e.start, t.substr(e.open, e.close - e.open), "dissolve <" + e.name + ">" };
	case 6: if (e.leaf) c.prune(); return { e.open, 0, "stray text <zzz a='1'>4 5<q/></zzz>", "insert an unknown element in <" + e.name + ">" };
	case 7: { if (e.prev < 0) c.prune(); const Elem& p = b.es[(size_t) e.prev]; if (p.name == e.name) c.prune(); string w = whole; if (e.close < e.end) w.replace(e.close - e.start + 2, e.name.size(), p.name); w.replace(1, e.name.size(), p.name); return { e.start, e.end - e.start, w, "rename <" + e.name + "> to <" + p.name + ">" }; }
	}
	c.prune();
}
static Edit textual(mc::Ctx& c, const Base& b, const Elem& e, int k)
{
	if (!e.leaf || e.open == e.close) c.prune(); string was = b.text.substr(e.open, e.close - e.open), is; vector<string> w = tokens(was); size_t n = w.size(); auto all = [&](const char* v) { return join(vector<string>(n, v), 0, n); };
	switch (k)
	{
	case 0: is = "x"; break; case 1: is = "-1"; break; case 2: is = "0"; break; case 3: is = "100000"; break; case 4: is = " \t\n "; break;
	case 5: if (n < 2) c.prune(); is = join(w, 0, n - 1); break; case 6: is = was + " 1"; break; case 7: if (n < 3) c.prune(); is = w[0]; break;
	case 8: if (n < 2) c.prune(); is = all("100000"); break; case 9: if (n < 2) c.prune(); is = all("-1"); break; case 10: if (n < 2) c.prune(); is = all("0"); break; case 11: if (n < 2) c.prune(); is = all("x"); break; case 12: if (n < 2) c.prune(); { vector<string> r(w.rbegin(), w.rend()); is = join(r, 0, n); } break;
	case 13: is = was + " " + was; break; case 14: is = "#" + (b.ids.empty() ? string("q") : b.ids[0]); break; case 15: is = "1.#QNAN0 INF -INF NaN 1e39"; break;
	}
	return { e.open, e.close - e.open, is, "text of <" + e.name + "> is '" + is.substr(0, 40) + "'" };
}
static Edit attribute(mc::Ctx& c, const Base& b, const Elem& e, const Attr& a, int k)
{
	const string& t = b.text; string name = t.substr(a.name, a.value - 2 - a.name), was = t.substr(a.value, a.end - a.value), is;
	switch (k)
	{
	case 0: return { a.name, a.end + 1 - a.name, "", "drop " + name + " of <" + e.name + ">" };
	case 1: is = ""; break; case 2: is = "x"; break; case 3: is = "-1"; break; case 4: is = "0"; break; case 5: is = "100000"; break; case 6: is = "#"; break; case 7: is = "#zzz"; break; case 8: is = "a/b(9)(9).X"; break; case 9: is = "3"; break; case 10: is = "other.dae#" + was.substr(was[0] == '#'); break;
	case 11: { bool ref = was[0] == '#'; if ((!ref && name != "id" && name != "target" && name != "texture" && name != "ref") || b.ids.empty()) c.prune(); string id = b.ids[(size_t) c.choose((int) b.ids.size())]; size_t sl = was.find_first_of("/."); is = (ref ? "#" : "") + id + (name == "target" && sl != string::npos ? was.substr(sl) : ""); break; }
	case 12: { vector<string> others; for (const Elem& o : b.es) for (const Attr& x : o.attrs) if (t.substr(x.name, x.value - 2 - x.name) == name) { string v = t.substr(x.value, x.end - x.value); if (v != was && std::find(others.begin(), others.end(), v) == others.end()) others.push_back(v); } if (name == "id" || was[0] == '#' || others.empty()) c.prune(); is = others[(size_t) c.choose((int) std::min<size_t>(others.size(), 8))]; break; }
	}
	if (is == was) c.prune(); return { a.value, a.end - a.value, is, name + " of <" + e.name + "> is '" + is + "' instead of '" + was + "'" };
}
static void mutated(mc::Ctx& c, const Base& b, const Edit& e)
{
	string m = b.text; m.replace(e.at, e.len, e.put); size_t line = 1 + (size_t) std::count(b.text.begin(), b.text.begin() + (long) e.at, '\n'); c.op("%s, line %zu: %s", b.name.c_str(), line, e.what.c_str()); if (const char* show = getenv("MC_SHOW")) std::ofstream(show) << m; walk(c, m);
}
SPACE(whole, 1)
{
	const Base& b = BASES[(size_t) c.choose((int) BASES.size())]; c.op("%s", b.name.c_str()); bool ok = walk(c, b.text); CHECK(ok, "refused", "the document itself is not imported: %s", problems.c_str());
}
SPACE(elements, 2)
{
	const Base& b = BASES[(size_t) c.choose((int) BASES.size())]; const Elem& e = b.es[(size_t) c.choose((int) b.es.size())]; int k = c.choose(8); mutated(c, b, structural(c, b, e, k));
}
SPACE(texts, 2)
{
	const Base& b = BASES[(size_t) c.choose((int) BASES.size())]; vector<const Elem*> es; for (const Elem& e : b.es) if (e.leaf && e.open != e.close) es.push_back(&e); if (es.empty()) c.prune(); const Elem& e = *es[(size_t) c.choose((int) es.size())]; int k = c.choose(16); mutated(c, b, textual(c, b, e, k));
}
SPACE(attributes, 2)
{
	const Base& b = BASES[(size_t) c.choose((int) BASES.size())]; vector<std::pair<const Elem*, size_t>> as; for (const Elem& e : b.es) for (size_t i = 0; i < e.attrs.size(); ++i) as.push_back({ &e, i }); auto& p = as[(size_t) c.choose((int) as.size())]; int k = c.choose(13); mutated(c, b, attribute(c, b, *p.first, p.first->attrs[p.second], k));
}
// One number of a list of numbers is another small one: just after the last element, vertex, joint, control point or key.
SPACE(numbers, 2)
{
	const Base& b = BASES[(size_t) c.choose((int) BASES.size())]; vector<const Elem*> es; for (const Elem& e : b.es) if (e.leaf && e.open != e.close) { string t = b.text.substr(e.open, e.close - e.open); vector<string> w = tokens(t); if (w.size() > 1 && t.find_first_not_of("0123456789- \t\r\n") == string::npos) es.push_back(&e); } if (es.empty()) c.prune();
	const Elem& e = *es[(size_t) c.choose((int) es.size())]; vector<string> w = tokens(b.text.substr(e.open, e.close - e.open)); size_t n = w.size(), m = c.deep ? n : std::min<size_t>(n, 8), i = (size_t) c.choose((int) m); if (!c.deep && n > m && i >= m / 2) i = n - m + i; string v = mc::strf("%d", c.choose(c.deep ? 14 : 10) - 1); if (w[i] == v) c.prune(); string was = w[i]; w[i] = v;
	mutated(c, b, { e.open, e.close - e.open, join(w, 0, n), mc::strf("number %zu of <%s> is %s instead of %s", i, e.name.c_str(), v.c_str(), was.c_str()) });
}
// A document that ends too early is not well formed.
SPACE(truncated, 2)
{
	const Base& b = BASES[(size_t) c.choose((int) BASES.size())]; size_t end = b.es[0].end, step = c.deep ? 1 : 1 + b.text.size() / 400; size_t n = (size_t) c.choose((int) ((end + step - 1) / step)) * step; c.op("%s: the first %zu bytes", b.name.c_str(), n); bool ok = walk(c, b.text.substr(0, n), false); CHECK(!ok, "accepted", "the import of a text that is not well formed succeeds");
}

// Two mutations at once: of two elements (neither inside the other, or the inner one kept).
SPACE(pairs, 3)
{
	const Base& b = BASES[(size_t) c.choose((int) BASES.size())]; if (b.es.size() > (c.deep ? 160 : 80)) c.prune(); const Elem& e = b.es[(size_t) c.choose((int) b.es.size())]; const Elem& f = b.es[(size_t) c.choose((int) b.es.size())]; if (f.start < e.end) c.prune();
	int k = c.deep ? c.choose(3) : 0, l = c.deep ? c.choose(3) : 0; const int kinds[3] = { 0, 3, 1 }; Edit x = structural(c, b, e, kinds[k]), y = structural(c, b, f, kinds[l]);
	string m = b.text; m.replace(y.at, y.len, y.put); m.replace(x.at, x.len, x.put); c.op("%s: %s and %s", b.name.c_str(), x.what.c_str(), y.what.c_str()); if (const char* show = getenv("MC_SHOW")) std::ofstream(show) << m; walk(c, m);
}
