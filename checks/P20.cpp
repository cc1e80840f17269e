// P20: text through the XML writer and reader, the string class, the string builder, and clean names.
#include <libxml/tree.h>
#include <algorithm>
#include <functional>
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDEntity.h"
#include "FCDocument/FCDExtra.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEffectProfileFX.h"
#include "FCDocument/FCDEffectTechnique.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FCDocument/FCDEffectCode.h"
#include "FUtils/FUXmlDocument.h"
#include "FUtils/FUXmlParser.h"
#include "FUtils/FUXmlWriter.h"
#include "FUtils/FUStringConversion.h"
#include "mc.h"
const char* mc::property = "P20"; const char* mc::level = "model_checking";
const char* mc::rule = "every string up to a bounded length over an alphabet of markup, control, percent, quote, white-space and multi-byte characters, written as content and attribute and read back from the file; the same for every string field of a document; every sequence of string, builder and element operations up to a bound against std::string and a tree model; a case is non-trivial when a text was compared";
std::vector<std::string> mc::assumptions = { "a '%' with two hexadecimal digits is the escape of one byte in this format", "element and attribute names are valid XML names", "fm::string searches for the empty string find nothing (the library's own definition)" };
using std::string; using std::vector;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); }, true);
static string show(const string& s) { string o; for (unsigned char ch : s) o += ch < 33 || ch > 126 ? mc::strf("\\x%02x", ch) : string(1, (char) ch); return o; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// what the text stands for, with escapes resolved
static string decode(const string& s)
{
	string o;
	for (size_t i = 0; i < s.size(); ++i)
		if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0 && hexv(s[i + 1]) + hexv(s[i + 2]) > 0) { o += (char) (hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; }
		else o += s[i];
	return o;
}
static const char AL[] = { 'a', '%', '4', '1', '<', '>', '&', '"', '\'', ' ', '\n', '\r', '\t', '\x01', '\x7f', '\xC3', '\xA9', '\xFF', ']', '\\', '0', '\xED', 'x', ';', '#', '\xE2', '\x82' };
static string anyString(mc::Ctx& c, int maxLen) { int n = c.choose(maxLen + 1); string s; for (int i = 0; i < n; ++i) s += AL[c.choose((int) sizeof AL)]; return s; }

static void writeRead(mc::Ctx& c, const string& s, const string& t)
{
	string f = mc::scratch() + "/t.xml";
	{
		FUXmlDocument d(NULL, f.c_str(), false); xmlNode* r = d.CreateRootNode("root");
		xmlNode* a = FUXmlWriter::AddChild(r, "first", s.c_str()); FUXmlWriter::AddAttribute(a, "one", s.c_str()); FUXmlWriter::AddAttribute(a, "two", t.c_str());
		xmlNode* b = FUXmlWriter::AddChild(r, "second"); FUXmlWriter::AddContent(b, fm::string(s.c_str())); FUXmlWriter::AddAttribute(b, "three", fm::string(s.c_str()));
		FUXmlWriter::AddChildSorted(r, "third", s.c_str()); FUXmlWriter::AddChildOnce(r, "fourth", s.c_str());
		CHECK(d.Write(), "xml:write", "'%s' cannot be written", show(s).c_str());
	}
	FUXmlDocument d(NULL, f.c_str(), true); xmlNode* r = d.GetRootNode();
	CHECK(r != NULL, "xml:wellformed", "the document with '%s' and '%s' cannot be read", show(s).c_str(), show(t).c_str());
	for (const char* n : { "first", "second", "third", "fourth" })
	{
		xmlNode* x = FUXmlParser::FindChildByType(r, n); CHECK(x != NULL, "xml:child", "<%s> is missing", n);
		string got = FUXmlParser::ReadNodeContentFull(x).c_str();
		CHECK(got == decode(s), "xml:content", "<%s>: '%s' reads back as '%s'", n, show(s).c_str(), show(got).c_str());
	}
	xmlNode* x = FUXmlParser::FindChildByType(r, "first");
	for (const char* n : { "one", "two", "three" })
	{
		if (n[1] == 'h') x = FUXmlParser::FindChildByType(r, "second");
		string want = n[1] == 'w' ? t : s, got = FUXmlParser::ReadNodeProperty(x, n).c_str();
		CHECK(FUXmlParser::HasNodeProperty(x, n), "xml:attribute", "attribute %s is missing", n);
		CHECK(got == decode(want), "xml:attribute", "attribute %s: '%s' reads back as '%s'", n, show(want).c_str(), show(got).c_str());
	}
	CHECK(!FUXmlParser::HasNodeProperty(x, "four"), "xml:attribute", "an attribute that was never written");
	c.state(s + "|" + t);
}
SPACE(texts, 2)
{
	string s = anyString(c, c.deep ? 4 : 3), t = "k" + s + "\xC3\xA9"; c.op("text '%s'", show(s).c_str()); writeRead(c, s, t);
}
static const vector<string> TOK = { "", "a", "%", "%4", "%41", "%00", "%zz", "%25", "<", "&", "&amp;", "&#65;", "]]>", "\"", "'", " ", "\n", "\r\n", "\t", "\x01", "\x1f", "\x7f", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xFF", "\xC3", "\xED\xA0\x80", "\xC0\x80", "\xEF\xBF\xBF", "\\", "^", "`", "~", "@", "<!--", "-->", "<![CDATA[" };
SPACE(tokens, 2)
{
	string s = c.pick(TOK) + c.pick(TOK) + c.pick(TOK), t = c.flag() ? string() : s + s; c.op("text '%s'", show(s).c_str()); writeRead(c, s, t);
}
// Every text field of a document
struct Field { const char* name; std::function<void(FCDocument*, const fm::string&)> set; std::function<fm::string(FCDocument*)> get; };
static FCDGeometryMesh* mesh(FCDocument* d) { return d->GetGeometryLibrary()->GetEntity(0)->GetMesh(); }
static FCDEffectProfileFX* fx(FCDocument* d) { return (FCDEffectProfileFX*) d->GetEffectLibrary()->GetEntity(0)->GetProfile(0); }
static FCDEffectParameter* eparam(FCDocument* d) { return d->GetEffectLibrary()->GetEntity(0)->GetEffectParameter(0); }
static FCDENode* tech(FCDocument* d) { return d->GetVisualSceneLibrary()->GetEntity(0)->GetChild(0)->GetExtra()->GetDefaultType()->FindTechnique("PROF"); }
static const vector<Field> FIELDS = {
	{ "asset title", [](FCDocument* d, const fm::string& s) { d->GetAsset()->SetTitle(s); }, [](FCDocument* d) { return fm::string(d->GetAsset()->GetTitle()); } },
	{ "asset subject", [](FCDocument* d, const fm::string& s) { d->GetAsset()->SetSubject(s); }, [](FCDocument* d) { return fm::string(d->GetAsset()->GetSubject()); } },
	{ "asset keywords", [](FCDocument* d, const fm::string& s) { d->GetAsset()->SetKeywords(s); }, [](FCDocument* d) { return fm::string(d->GetAsset()->GetKeywords()); } },
	{ "asset revision", [](FCDocument* d, const fm::string& s) { d->GetAsset()->SetRevision(s); }, [](FCDocument* d) { return fm::string(d->GetAsset()->GetRevision()); } },
	{ "unit name", [](FCDocument* d, const fm::string& s) { d->GetAsset()->SetUnitName("u" + s); d->GetAsset()->SetUnitConversionFactor(0.5f); }, [](FCDocument* d) { fm::string s = d->GetAsset()->GetUnitName(); return s.empty() ? s : s.substr(1); } },
	{ "contributor author", [](FCDocument* d, const fm::string& s) { d->GetAsset()->GetContributor(0)->SetAuthor(s); }, [](FCDocument* d) { return fm::string(d->GetAsset()->GetContributor(0)->GetAuthor()); } },
	{ "contributor tool", [](FCDocument* d, const fm::string& s) { d->GetAsset()->GetContributor(0)->SetAuthoringTool(s); }, [](FCDocument* d) { return fm::string(d->GetAsset()->GetContributor(0)->GetAuthoringTool()); } },
	{ "contributor comments", [](FCDocument* d, const fm::string& s) { d->GetAsset()->GetContributor(0)->SetComments(s); }, [](FCDocument* d) { return fm::string(d->GetAsset()->GetContributor(0)->GetComments()); } },
	{ "contributor copyright", [](FCDocument* d, const fm::string& s) { d->GetAsset()->GetContributor(0)->SetCopyright(s); }, [](FCDocument* d) { return fm::string(d->GetAsset()->GetContributor(0)->GetCopyright()); } },
	{ "geometry note", [](FCDocument* d, const fm::string& s) { d->GetGeometryLibrary()->GetEntity(0)->SetNote(s); }, [](FCDocument* d) { return fm::string(d->GetGeometryLibrary()->GetEntity(0)->GetNote()); } },
	{ "node note", [](FCDocument* d, const fm::string& s) { d->GetVisualSceneLibrary()->GetEntity(0)->GetChild(0)->SetNote(s); }, [](FCDocument* d) { return fm::string(d->GetVisualSceneLibrary()->GetEntity(0)->GetChild(0)->GetNote()); } },
	{ "source name", [](FCDocument* d, const fm::string& s) { mesh(d)->GetSource(0)->SetName(s); }, [](FCDocument* d) { return fm::string(mesh(d)->GetSource(0)->GetName()); } },
	{ "polygons material", [](FCDocument* d, const fm::string& s) { mesh(d)->GetPolygons(0)->SetMaterialSemantic(s); }, [](FCDocument* d) { return fm::string(mesh(d)->GetPolygons(0)->GetMaterialSemantic()); } },
	{ "extra content", [](FCDocument* d, const fm::string& s) { tech(d)->FindChildNode("leaf")->SetContent(s); }, [](FCDocument* d) { return fm::string(tech(d)->FindChildNode("leaf")->GetContent()); } },
	{ "extra attribute", [](FCDocument* d, const fm::string& s) { tech(d)->FindChildNode("leaf")->FindAttribute("att")->SetValue(s); }, [](FCDocument* d) { return fm::string(tech(d)->FindChildNode("leaf")->FindAttribute("att")->GetValue()); } },
	{ "effect technique", [](FCDocument* d, const fm::string& s) { fx(d)->GetTechnique(0)->SetName("t" + s); }, [](FCDocument* d) { return fm::string(fx(d)->GetTechnique(0)->GetName()).substr(1); } },
	{ "parameter string", [](FCDocument* d, const fm::string& s) { ((FCDEffectParameterString*) eparam(d))->SetValue(s); }, [](FCDocument* d) { return fm::string(((FCDEffectParameterString*) eparam(d))->GetValue()); } },
	{ "parameter semantic", [](FCDocument* d, const fm::string& s) { eparam(d)->SetSemantic(s); }, [](FCDocument* d) { return fm::string(eparam(d)->GetSemantic()); } },
	{ "annotation", [](FCDocument* d, const fm::string& s) { eparam(d)->GetAnnotation(0)->value = s; }, [](FCDocument* d) { return fm::string(*eparam(d)->GetAnnotation(0)->value); } },
	{ "effect code", [](FCDocument* d, const fm::string& s) { fx(d)->GetCode(0)->SetCode(s); }, [](FCDocument* d) { return fm::string(fx(d)->GetCode(0)->GetCode()); } },
};
static FCDocument* base()
{
	FCDocument* d = FCollada::NewTopDocument();
	FCDAssetContributor* k = d->GetAsset()->AddContributor(); k->SetAuthor("author"); k->SetAuthoringTool("tool"); k->SetComments("comments"); k->SetCopyright("copyright");
	FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); g->SetDaeId(fm::string("geo")); FCDGeometryMesh* m = g->CreateMesh();
	FCDGeometrySource* src = m->AddVertexSource(FUDaeGeometryInput::POSITION); src->SetDaeId(fm::string("pos")); src->SetStride(3); FloatList v(9, 1.0f); src->SetData(v, 3);
	FCDGeometryPolygons* p = m->AddPolygons(); p->AddFaceVertexCount(3); uint32 ix[3] = { 0, 1, 2 }; p->FindInput(src)->SetIndices(ix, 3); m->Recalculate();
	FCDSceneNode* root = d->AddVisualScene(); root->SetDaeId(fm::string("scene")); FCDSceneNode* n = root->AddChildNode(); n->SetDaeId(fm::string("node"));
	FCDENode* leaf = n->GetExtra()->GetDefaultType()->AddTechnique("PROF")->AddChildNode("leaf"); leaf->AddAttribute("att", FC(""));
	FCDEffect* e = d->GetEffectLibrary()->AddEntity(); e->SetDaeId(fm::string("effect")); FCDEffectProfileFX* f = (FCDEffectProfileFX*) e->AddProfile(FUDaeProfileType::CG);
	f->AddTechnique()->SetName("tech"); FCDEffectCode* code = f->AddCode(); code->SetSubId("code"); code->SetCode("x");
	FCDEffectParameter* ep = e->AddEffectParameter(FCDEffectParameter::STRING); ep->SetReference("ref"); FCDEffectParameterAnnotation* an = ep->AddAnnotation(); an->name = FC("ann"); an->type = FCDEffectParameter::STRING; an->value = FC("val");
	return d;
}
SPACE(fields, 2)
{
	const Field& f = FIELDS[(size_t) c.choose((int) FIELDS.size())]; string s = c.pick(TOK) + c.pick(TOK); bool only = c.flag(); if (only) s += "b";
	c.op("%s = '%s'", f.name, show(s).c_str());
	string file = mc::scratch() + "/t.dae", again = mc::scratch() + "/u.dae";
	FCDocument* d = base(); f.set(d, fm::string(s.c_str()));
	CHECK(string(f.get(d).c_str()) == s, "field:set", "%s does not hold '%s'", f.name, show(s).c_str());
	CHECK(FCollada::SaveDocument(d, file.c_str()), "field:save", "%s = '%s' cannot be saved", f.name, show(s).c_str());
	FCDocument* e = FCollada::NewTopDocument();
	CHECK(FCollada::LoadDocumentFromFile(e, file.c_str()), "field:load", "%s = '%s' cannot be loaded", f.name, show(s).c_str());
	string got = f.get(e).c_str();
	CHECK(got == decode(s), mc::strf("field:%s", f.name), "%s = '%s' reads back as '%s'", f.name, show(s).c_str(), show(got).c_str());
	c.state(f.name + s);
	SAFE_RELEASE(d); SAFE_RELEASE(e);
}
// Elements in order: the node-building functions against a tree model
struct M { string name; vector<M*> kids; M* up = NULL; xmlNode* x = NULL; };
static void shape(const M* m, string& o) { o += m->name + "("; for (const M* k : m->kids) shape(k, o); o += ")"; }
static void shapeX(xmlNode* n, string& o) { o += string((const char*) n->name) + "("; for (xmlNode* k = n->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE) shapeX(k, o); o += ")"; }
SPACE(elements, 3)
{
	string f = mc::scratch() + "/t.xml"; vector<M*> all; string want, ids;
	auto make = [&](const char* n, xmlNode* x) { M* m = new M; m->name = n; m->x = x; all.push_back(m); return m; };
	auto at = [](M* m) { return (size_t) (std::find(m->up->kids.begin(), m->up->kids.end(), m) - m->up->kids.begin()); };
	{
		FUXmlDocument d(NULL, f.c_str(), false); M* root = make("r", d.CreateRootNode("r"));
		int depth = c.deep ? 5 : 4;
		for (int i = 0; i < depth; ++i)
		{
			M* m = all[(size_t) c.choose((int) all.size())]; static const char* names[] = { "a", "b", "c" };
			const char* n = names[c.choose(2) + (i & 1)];
			switch (c.choose(6))
			{
			case 0: { c.op("AddChild(%s, %s)", m->name.c_str(), n); M* k = make(n, FUXmlWriter::AddChild(m->x, n)); k->up = m; m->kids.push_back(k); break; }
			case 1: { c.op("AddChildSorted(%s, %s)", m->name.c_str(), n); M* k = make(n, FUXmlWriter::AddChildSorted(m->x, n)); k->up = m; size_t p = m->kids.size(); while (p > 0 && m->kids[p - 1]->name > n) --p; m->kids.insert(m->kids.begin() + (long) p, k); break; }
			case 2: { if (!m->up) c.prune(); c.op("AddSibling(%s, %s)", m->name.c_str(), n); M* k = make(n, FUXmlWriter::AddSibling(m->x, n)); k->up = m->up; m->up->kids.push_back(k); break; }
			case 3: { if (!m->up) c.prune(); c.op("InsertChild before %s: %s", m->name.c_str(), n); M* k = make(n, FUXmlWriter::InsertChild(m->up->x, m->x, n)); k->up = m->up; m->up->kids.insert(m->up->kids.begin() + (long) at(m), k); break; }
			case 4: { c.op("AddChildOnce(%s, %s)", m->name.c_str(), n); xmlNode* x = FUXmlWriter::AddChildOnce(m->x, n); M* o = NULL; for (M* k : m->kids) if (k->name == n) { o = k; break; }
				if (o) CHECK(o->x == x, "elements:once", "AddChildOnce did not give the existing child"); else { M* k = make(n, x); k->up = m; m->kids.push_back(k); } break; }
			default: { if (!m->up) c.prune(); M* p = all[(size_t) c.choose((int) all.size())]; for (M* q = p; q; q = q->up) if (q == m) c.prune();
				c.op("ReParent(%s, %s)", m->name.c_str(), p->name.c_str()); FUXmlWriter::ReParentNode(m->x, p->x); m->up->kids.erase(m->up->kids.begin() + (long) at(m)); m->up = p; p->kids.push_back(m); }
			}
		}
		for (size_t i = 0; i < all.size(); ++i) { FUXmlWriter::AddAttribute(all[i]->x, "id", (uint32) i); FUXmlWriter::AddAttribute(all[i]->x, "name", "n" + fm::string(all[i]->name.c_str())); }
		shape(root, want); CHECK(d.Write(), "elements:write", "cannot be written");
	}
	FUXmlDocument d(NULL, f.c_str(), true); CHECK(d.GetRootNode(), "elements:read", "cannot be read");
	string got; shapeX(d.GetRootNode(), got); CHECK(got == want, "elements:order", "%s, expected %s", got.c_str(), want.c_str());
	std::function<void(const M*, xmlNode*)> cmp = [&](const M* m, xmlNode* x)
	{
		CHECK(FUStringConversion::ToUInt32(FUXmlParser::ReadNodeProperty(x, "id")) == (uint32) (std::find(all.begin(), all.end(), m) - all.begin()), "elements:identity", "element %s is another one", m->name.c_str());
		vector<xmlNode*> kx; for (xmlNode* k = x->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE) kx.push_back(k);
		for (const char* n : { "a", "b", "c" })
		{
			xmlNodeList l; FUXmlParser::FindChildrenByType(x, n, l); vector<xmlNode*> w; for (size_t i = 0; i < kx.size(); ++i) if (m->kids[i]->name == n) w.push_back(kx[i]);
			CHECK(l.size() == w.size() && std::equal(w.begin(), w.end(), l.begin()), "elements:find", "FindChildrenByType(%s)", n);
			CHECK(FUXmlParser::FindChildByType(x, n) == (w.empty() ? NULL : w[0]), "elements:find", "FindChildByType(%s)", n);
			CHECK(FUXmlParser::FindChildByName(x, (string("n") + n).c_str()) == (w.empty() ? NULL : w[0]), "elements:find", "FindChildByName(n%s)", n);
			CHECK(FUXmlParser::FindChildByProperty(x, "name", (string("n") + n).c_str()) == (w.empty() ? NULL : w[0]), "elements:find", "FindChildByProperty(n%s)", n);
			CHECK(FUXmlParser::FindNodeInListByProperty(l, "name", (string("n") + n).c_str()) == (w.empty() ? NULL : w[0]), "elements:find", "FindNodeInListByProperty");
		}
		for (size_t i = 0; i < kx.size(); ++i) cmp(m->kids[i], kx[i]);
	};
	cmp(all[0], d.GetRootNode()); c.state(want);
	for (M* m : all) delete m;
}
// names
SPACE(names, 2)
{
	bool isLong = c.flag(); string s;
	if (!isLong) { static const char A2[] = "aZ_-.:9 \xE9%/"; int n = c.choose(c.deep ? 6 : 5); for (int i = 0; i < n; ++i) s += A2[c.choose((int) sizeof A2 - 1)]; }
	else { s = string((size_t) c.range(505, 520), "a.9:"[c.choose(4)]); if (c.flag()) s.back() = '-'; }
	c.op("name '%s'", s.size() > 20 ? mc::strf("%zu x '%c'", s.size(), s[0]).c_str() : show(s).c_str());
	for (int k = 0; k < 3; ++k)
	{
		string w = s.substr(0, 512); auto al = [](char x) { return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || x == '_'; };
		for (size_t i = 0; i < w.size(); ++i) if (!(al(w[i]) || (i > 0 && ((w[i] >= '0' && w[i] <= '9') || w[i] == '-' || (w[i] == '.' && k == 0))))) w[i] = '_';
		fm::string g = k == 0 ? FCDObjectWithId::CleanId(s.c_str()) : k == 1 ? FCDObjectWithId::CleanSubId(s.c_str()) : FCDEntity::CleanName(s.c_str());
		CHECK(w == g.c_str() && g.length() == w.size(), mc::strf("names:%d", k), "'%s' gives '%s', expected '%s'", show(s).c_str(), show(g.c_str()).c_str(), show(w).c_str());
	}
	c.state(s);
}
SPACE(filenames, 2)
{
	int n = c.choose(4); static const char A2[] = "aZ09_-.:/\\ %~#?<&\"\x01\x7f\xC3\xA9@[`{"; string s; for (int i = 0; i < n; ++i) s += A2[c.choose((int) sizeof A2 - 1)];
	fm::string f = s.c_str(); FUXmlWriter::ConvertFilename(f); c.op("filename '%s' -> '%s'", show(s).c_str(), f.c_str());
	for (const char* p = f.c_str(); *p; ++p) CHECK(isalnum((unsigned char) *p) || strchr("-./:_%", *p), "filename:characters", "'%s' -> '%s'", show(s).c_str(), f.c_str());
	CHECK(string(FUXmlParser::XmlToString(f.c_str()).c_str()) == s, "filename:decode", "'%s' -> '%s' -> '%s'", show(s).c_str(), f.c_str(), show(FUXmlParser::XmlToString(f.c_str()).c_str()).c_str());
	c.state(s);
}
// the string builder against std::string
static void sameB(mc::Ctx& c, FUSStringBuilder& b, const string& r, bool text)
{
	CHECK(b.length() == r.size() && b.empty() == r.empty(), "builder:length", "length %zu, expected %zu", b.length(), r.size());
	for (char ch : { 'a', 'b', '1', 'z' })
	{
		size_t i = r.find(ch), j = r.rfind(ch);
		CHECK(b.index(ch) == (i == string::npos ? -1 : (int) i), "builder:index", "index('%c') = %d in '%s'", ch, b.index(ch), r.c_str());
		CHECK(b.rindex(ch) == (j == string::npos ? -1 : (int) j), "builder:rindex", "rindex('%c') = %d in '%s'", ch, b.rindex(ch), r.c_str());
	}
	if (!r.empty()) CHECK(b.back() == r.back(), "builder:back", "back()");
	if (text) { CHECK(string(b.ToCharPtr()) == r, "builder:text", "'%s', expected '%s'", b.ToCharPtr(), r.c_str()); CHECK(string(b.ToString().c_str()) == r, "builder:text", "ToString '%s', expected '%s'", b.ToString().c_str(), r.c_str()); }
}
SPACE(builder, 3)
{
	string r; FUSStringBuilder* b; bool text = c.flag(); // reading the text on the way changes the buffer
	switch (c.choose(5)) { case 0: b = new FUSStringBuilder(); break; case 1: b = new FUSStringBuilder("ab1"); r = "ab1"; break; case 2: b = new FUSStringBuilder('a', (size_t) 3); r = "aaa"; break; case 3: b = new FUSStringBuilder((size_t) 1); break; default: b = new FUSStringBuilder(fm::string("b")); r = "b"; }
	c.op("start '%s'", r.c_str());
	for (int d = 0, depth = c.deep ? 4 : 3; d < depth; ++d)
	{
		switch (c.choose(22))
		{
		case 0: b->append('a'); r += 'a'; c.op("append a"); break;
		case 1: b->append("b1"); r += "b1"; c.op("append b1"); break;
		case 2: b->append(fm::string("ab")); r += "ab"; c.op("append string"); break;
		case 3: b->append("abcdef", 4); r += "abcd"; c.op("append 4 of"); break;
		case 4: b->append(*b); r += r; c.op("append itself"); break;
		case 5: b->append((int32) -12); r += "-12"; c.op("append -12"); break;
		case 6: b->append((uint32) 4000000000u); r += "4000000000"; c.op("append uint"); break;
		case 7: b->append((uint64) 123456789012ull); r += "123456789012"; c.op("append uint64"); break;
		case 8: b->appendHex((uint8) 0xA5); r += "A5"; c.op("appendHex"); break;
		case 9: b->append(1.5f); r += "1.5"; c.op("append 1.5f"); break;
		case 10: b->append(-2.25); r += "-2.25"; c.op("append -2.25"); break;
		case 11: b->appendLine("b"); r += "b\n"; c.op("appendLine"); break;
		case 12: { int32 i = c.choose(3) * 2 - 1; b->remove(i); if (i >= 0 && (size_t) i < r.size()) r.resize((size_t) i); c.op("remove(%d)", i); break; }
		case 13: { int32 i = c.choose(4) - 1, j = i + c.choose(4) - 1; b->remove(i, j); if (i >= 0 && j > i && (size_t) j <= r.size()) r.erase((size_t) i, (size_t) (j - i)); c.op("remove(%d, %d)", i, j); break; }
		case 14: b->pop_back(); if (!r.empty()) r.pop_back(); c.op("pop_back"); break;
		case 15: b->clear(); r.clear(); c.op("clear"); break;
		case 16: b->set("1a"); r = "1a"; c.op("set"); break;
		case 17: *b = fm::string("zb"); r = "zb"; c.op("="); break;
		case 18: { size_t n = (size_t) c.choose(3) * 40; b->reserve(n); if (r.size() > n) r.resize(n); c.op("reserve(%zu)", n); break; }
		case 19: { *b += string(70, 'b').c_str(); r += string(70, 'b'); c.op("+= 70 b"); break; }
		case 20: { FUSStringBuilder e("a0"); e.append(*b); FUSStringBuilder k(e); e.append('x'); *b = k; k.clear(); r = "a0" + r; c.op("copy"); break; }
		default: { bool sp = !r.empty(); b->append(FMVector3(1, 2, 3)); r += string(sp ? " " : "") + "1 2 3"; c.op("append vector"); }
		}
		sameB(c, *b, r, text || d + 1 == depth);
	}
	c.state(r); delete b;
}
// the string class against std::string
static void sameS(mc::Ctx& c, const fm::string& s, const string& r)
{
	CHECK(s.length() == r.size() && s.size() == r.size() && s.empty() == r.empty(), "string:length", "length %zu, expected %zu", s.length(), r.size());
	CHECK(string(s.c_str()) == r, "string:text", "'%s', expected '%s'", s.c_str(), r.c_str());
	if (!r.empty()) CHECK(s.back() == r.back() && s.front() == r.front() && s[r.size() - 1] == r.back(), "string:back", "front/back");
	for (const char* p : { "a", "b", "ab", "ba", "aab", "x", "bb" })
	{
		for (size_t o = 0; o <= r.size(); ++o)
		{
			size_t w = r.find(p, o), l = r.rfind(p); if (l != string::npos && l < o) l = string::npos;
			CHECK(s.find(p, o) == w && s.find(fm::string(p), o) == w, "string:find", "find(%s, %zu) in '%s'", p, o, r.c_str());
			CHECK(s.rfind(p, o) == l && s.rfind(fm::string(p), o) == l, "string:rfind", "rfind(%s, %zu) in '%s'", p, o, r.c_str());
			CHECK(s.find_first_of(p, o) == r.find_first_of(p, o), "string:find_first_of", "find_first_of(%s, %zu) in '%s'", p, o, r.c_str());
			if (!p[1]) CHECK(s.find(p[0], o) == w && s.rfind(p[0], o) == l, "string:find", "find('%s', %zu) in '%s'", p, o, r.c_str());
		}
		CHECK(s.find_last_of(p) == r.find_last_of(p), "string:find_last_of", "find_last_of(%s) in '%s'", p, r.c_str());
		CHECK((s == p) == (r == p) && (s != p) == (r != p) && (s == fm::string(p)) == (r == p) && (s != fm::string(p)) == (r != p) && (s < fm::string(p)) == (r < p) && (fm::string(p) < s) == (p < r), "string:compare", "compare '%s' with '%s'", r.c_str(), p);
	}
	for (size_t i = 0; i <= r.size(); ++i) for (size_t n = 0; n <= r.size() - i + 1; ++n)
		CHECK(string(s.substr(i, n).c_str()) == r.substr(i, n), "string:substr", "substr(%zu, %zu) of '%s' = '%s'", i, n, r.c_str(), s.substr(i, n).c_str());
}
SPACE(strings, 3)
{
	string r; fm::string s; const char* st[] = { "", "a", "ab", "aabab" }; int k = c.choose(8); const char* t = st[k / 2];
	if (k & 1) s = fm::string(t); else s = fm::string(t, (size_t) 3); r = k & 1 ? string(t) : string(t).substr(0, 3); c.op("start '%s'", r.c_str()); sameS(c, s, r);
	for (int d = 0, depth = c.deep ? 4 : 3; d < depth; ++d)
	{
		switch (c.choose(16))
		{
		case 0: s.append('a'); r += 'a'; c.op("append a"); break;
		case 1: s.append("ba"); r += "ba"; c.op("append ba"); break;
		case 2: s.append("bab", (size_t) 2); r += "ba"; c.op("append 2 of bab"); break;
		case 3: { fm::string x = s; s.append(x); r += r; c.op("append copy"); break; }
		case 4: { size_t o = (size_t) c.choose(4); s.insert(o, "xb"); r.insert(std::min(o, r.size()), "xb"); c.op("insert(%zu)", o); break; }
		case 5: { size_t o = (size_t) c.choose(4); s.insert(o, fm::string("b")); r.insert(std::min(o, r.size()), "b"); c.op("insert(%zu, string)", o); break; }
		case 6: { size_t o = (size_t) c.choose(4), e = o + (size_t) c.choose(4); s.erase(o, e); if (o < r.size() && o < e) r.erase(o, e - o); c.op("erase(%zu, %zu)", o, e); break; }
		case 7: s.erase(1); if (r.size() > 1) r.erase(1); c.op("erase(1)"); break;
		case 8: { size_t n = (size_t) c.choose(4); if (n > r.size()) n = r.size(); s.resize(n); r.resize(n); c.op("resize(%zu)", n); break; }
		case 9: { size_t n = (size_t) c.choose(7); s.resize(n, 'b'); r.resize(n, 'b'); c.op("resize(%zu, b)", n); break; }
		case 10: if (r.empty()) c.prune(); s.pop_back(); r.pop_back(); c.op("pop_back"); break;
		case 11: s = s + "a"; r += "a"; c.op("= s + a"); break;
		case 12: s = "b" + s; r = "b" + r; c.op("= b + s"); break;
		case 13: { s += fm::string("ab"); r += "ab"; c.op("+= ab"); break; }
		case 14: s += 'b'; r += 'b'; c.op("+= b"); break;
		default: { size_t o = (size_t) c.choose(3); s = s.substr(o); r = o <= r.size() ? r.substr(o) : string(); c.op("= substr(%zu)", o); }
		}
		sameS(c, s, r);
	}
	c.state(r);
}
