// Export, import, export again: the round trip that P01 and P02 check.
#pragma once
#include <fstream>
#include <sstream>
#include "dump.h"
#include "FUtils/FUError.h"
namespace trip {
static std::string errors;
struct Listen
{
	Listen() { errors = ""; static char me; static bool once = false; if (once) return; once = true; for (int l = 1; l < 3; ++l) FUError::AddErrorCallback((FUError::Level) l, &me, [](FUError::Level, uint32 code, uint32 line) { errors += mc::strf("'%s' at line %u; ", FUError::GetErrorString((FUError::Code) code), line); }); }
};
inline std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline std::string noDates(std::string s) { size_t i = 0; while ((i = s.find("<modified>", i)) != std::string::npos) { size_t j = s.find('<', i + 1); if (j == std::string::npos) break; s.replace(i + 10, j - i - 10, "-"); i += 11; } return s; }
inline std::string clean(const std::string& quoted) { std::string i = quoted.substr(1, quoted.size() - 2); return "\"" + std::string(FCDEntity::CleanName(i.c_str()).c_str()) + "\""; }
// An unnamed entity takes its identifier for name.
inline std::string noNames(std::string s) { size_t i = 0; while ((i = s.find(" id=\"", i)) != std::string::npos) { i += 4; size_t j = s.find('"', i + 1), e = s.find('>', i); std::string id = s.substr(i, j + 1 - i), n = " name=" + clean(id); size_t k = s.find(n, i); if (k != std::string::npos && k < e) s.erase(k, n.size()); } return s; }
// The document, exported and imported, is the same; exported again, it is the same text (or at least the same document again).
inline void check(mc::Ctx& c, FCDocument* d, bool sameText = true)
{
	Listen l; std::string base = mc::scratch(), a = base + "/one.dae", b = base + "/two.dae", key, what; std::string before = Dump::of(d);
	bool saved = FCollada::SaveDocument(d, a.c_str()); CHECK(saved, "export:refused", "%s", errors.c_str());
	std::string after = Dump::of(d); if (textDiff(before, after, key, what)) c.fail("export-changes:" + key, "%s", what.c_str());
	FUObjectRef<FCDocument> e = FCollada::NewTopDocument(); bool loaded = FCollada::LoadDocumentFromFile(e, a.c_str()); CHECK(loaded, "import:refused", "%s", errors.c_str());
	std::string again = Dump::of(e); if (const char* show = getenv("MC_SHOW")) { std::ofstream(show) << noDates(slurp(a)) << "\n----- before\n" << before << "----- again\n" << again; } if (textDiff(before, again, key, what)) c.fail("import-differs:" + key, "%s", what.c_str());
	bool saved2 = FCollada::SaveDocument(e, b.c_str()); CHECK(saved2, "export-again:refused", "%s", errors.c_str());
	if (!sameText) { FUObjectRef<FCDocument> f = FCollada::NewTopDocument(); CHECK(FCollada::LoadDocumentFromFile(f, b.c_str()), "import-again:refused", "%s", errors.c_str()); std::string third = Dump::of(f); if (textDiff(before, third, key, what)) c.fail("import-again-differs:" + key, "%s", what.c_str()); c.state(again); c.nontrivial(); return; }
	std::string x = noNames(noDates(slurp(a))), y = noNames(noDates(slurp(b))); if (x != y) { size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; size_t s = x.rfind('<', i); if (s == std::string::npos) s = 0; size_t n = s + 1; while (n < x.size() && (isalnum(x[n]) || x[n] == '_' || x[n] == '/')) ++n; std::string was = x.substr(s, 100), is = y.substr(s < y.size() ? s : y.size(), 100); c.fail("export-again:text:" + x.substr(s + 1, n - s - 1), "'%s' became '%s'", was.c_str(), is.c_str()); }
	c.state(x); c.nontrivial();
}
}
