// P04: I/O failures are reported, and files hold what was written.
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "trip.h"
#include "FUtils/FUFile.h"
#include "FUtils/FUXmlDocument.h"
#include "FUtils/FUXmlWriter.h"
#include "FUtils/FUXmlParser.h"
const char* mc::property = "P04"; const char* mc::level = "model_checking";
const char* mc::rule = "every call that the C library makes to the operating system for the files of the library (open, read, write, seek, close) is numbered in a first, undisturbed run; then each operation is run once for each call (and each pair of calls) and each way in which it can go wrong: it fails, it fails and so do all later ones, it transfers less than asked; a case is non-trivial when a disturbed operation was judged";
std::vector<std::string> mc::assumptions = { "what was written before a failure may remain in the file", "a failing seek is reported by a length of zero", "memory is never exhausted" };
static bool init = (mc::workerInit = [] { FCollada::Initialize(); }, true);
// The operating system below stdio: streams whose calls can be made to go wrong.
namespace io {
enum How { FAIL, FAIL_ON, SHORT, END, HOWS }; const char* HOW[] = { "fails", "fails, and all later ones", "is cut short", "transfers nothing" };
struct Fault { int at = -1; How how = FAIL; };
static bool on = false, hit = false, dead = false; static int calls = 0, open = 0; static std::vector<Fault> faults; static std::vector<char> kinds;
static std::string log;
struct Arm { Arm(const std::vector<Fault>& f = {}) { on = true; hit = dead = false; calls = 0; faults = f; kinds.clear(); log = ""; } ~Arm() { on = false; } };
// -1: go on; otherwise the way in which this call goes wrong
static int next(char kind) { if (!on) return -1; int n = calls++; kinds.push_back(kind); if (dead && kind != 'c') { errno = ENOSPC; return FAIL; } for (const Fault& f : faults) if (f.at == n) { log += mc::strf("call %d (%c) %s; ", n, kind, HOW[f.how]); hit = true; if (f.how == FAIL_ON) dead = true; errno = kind == 'w' ? ENOSPC : EIO; return f.how == FAIL_ON ? FAIL : f.how; } return -1; }
static ssize_t rd(void* k, char* b, size_t n) { int h = next('r'); if (h == FAIL) return -1; if (h == END) return 0; if (h == SHORT && n > 1) n /= 2; return read((int) (long) k, b, n); }
static ssize_t wr(void* k, const char* b, size_t n) { int h = next('w'); if (h == FAIL || h == END) return 0; if (h == SHORT) n /= 2; size_t d = 0; while (d < n) { ssize_t w = write((int) (long) k, b + d, n - d); if (w <= 0) break; d += w; } return d; }
static int sk(void* k, off64_t* o, int w) { int h = next('s'); if (h >= 0) return -1; off_t r = lseek((int) (long) k, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int cl(void* k) { --open; int h = next('c'); int r = close((int) (long) k); if (h >= 0) { errno = EIO; return -1; } return r; }
}
extern "C" FILE* fopen(const char* path, const char* mode)
{
	typedef FILE* (*Real)(const char*, const char*); static Real real = (Real) dlsym(RTLD_NEXT, "fopen"); if (!io::on) return real(path, mode);
	if (io::next('o') >= 0) return NULL; bool w = mode[0] == 'w'; int fd = ::open(path, w ? O_WRONLY | O_CREAT | O_TRUNC : O_RDONLY, 0600); if (fd < 0) return NULL; ++io::open; cookie_io_functions_t f = { io::rd, io::wr, io::sk, io::cl }; FILE* s = fopencookie((void*) (long) fd, mode, f); if (s) setvbuf(s, NULL, _IOFBF, 512); return s;
}
namespace {
using std::string; using std::vector;
struct Off { bool was = io::on; Off() { io::on = false; } ~Off() { io::on = was; } };
string bytes(const string& p) { Off off; std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
void put(const string& p, const string& b) { std::ofstream f(p, std::ios::binary); f << b; }
// The faults of one run: one call, or two of them. The number of calls and their kinds come from the undisturbed run.
vector<io::Fault> faults(mc::Ctx& c, const vector<char>& kinds, bool two)
{
	vector<io::Fault> r; int n = (int) kinds.size(); if (!n) c.prune(); auto one = [&](int from) { io::Fault f; f.at = from + c.choose(n - from); char k = kinds[f.at]; static const vector<io::How> O = { io::FAIL, io::FAIL_ON }, R = { io::FAIL, io::FAIL_ON, io::SHORT, io::END }, W = { io::FAIL, io::FAIL_ON, io::SHORT }, C = { io::FAIL }; f.how = c.pick(k == 'r' ? R : k == 'w' ? W : k == 'c' ? C : O); c.op("call %d (%c) %s", f.at, k, io::HOW[f.how]); return f; };
	r.push_back(one(0)); if (two && r[0].at + 1 < n && c.flag()) r.push_back(one(r[0].at + 1)); return r;
}
FUXmlDocument* nothing = NULL;
// Documents of different sizes: nothing, a few elements, several buffers.
const int DOCS = 4;
void fill(FCDocument* d, int k)
{
	if (k == 0) return; FCDSceneNode* v = d->AddVisualScene(); FCDCamera* cam = d->GetCameraLibrary()->AddEntity(); v->AddChildNode()->AddInstance(cam); if (k == 1) return;
	FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* m = g->CreateMesh(); FCDGeometrySource* s = m->AddVertexSource(FUDaeGeometryInput::POSITION); FloatList f; for (int i = 0; i < (k == 2 ? 60 : 900); ++i) f.push_back(i * 1.25f); s->SetData(f, 3); v->AddInstance(g);
	FCDGeometryPolygons* p = m->AddPolygons(); p->AddFaceVertexCount(3); UInt32List l; for (uint32 i = 0; i < 3; ++i) l.push_back(i); p->FindInput(s)->SetIndices(&l[0], 3); FCDLight* li = d->GetLightLibrary()->AddEntity(); li->SetNote(FC("a <note> & more")); v->AddInstance(li); d->GetAsset()->AddContributor()->SetAuthor(FC("me"));
}
struct Doc { FUObjectRef<FCDocument> d; Doc() : d(FCollada::NewTopDocument()) {} };
struct Dir { string p; Dir() : p(mc::scratch()) {} string operator/(const char* n) const { return p + "/" + n; } };
// Export.
void saving(mc::Ctx& c, bool two)
{
	int k = c.choose(DOCS), old = c.choose(3); Dir dir; string a = dir / "a.dae", b = dir / "b.dae"; Doc doc; fill(doc.d, k); trip::Listen l; unlink(a.c_str()); unlink(b.c_str());
	vector<char> kinds; { io::Arm arm; bool ok = FCollada::SaveDocument(doc.d, b.c_str()); kinds = io::kinds; CHECK(ok && io::open == 0, "save:undisturbed", "%s", trip::errors.c_str()); } string want = trip::noDates(bytes(b));
	CHECK(!want.empty() && want.find("</COLLADA>") != string::npos, "save:contents", "the file holds '%s'", want.c_str()); if (old == 1) put(a, "old"); if (old == 2) put(a, string(20000, 'x')); string before = Dump::of(doc.d);
	vector<io::Fault> f = faults(c, kinds, two); trip::errors = ""; bool ok; { io::Arm arm(f); ok = FCollada::SaveDocument(doc.d, a.c_str()); } string got = trip::noDates(bytes(a)); CHECK(io::hit, "save:calls", "the calls differ from the undisturbed run");
	if (ok) CHECK(got == want, "save:success-reported", "SaveDocument returned true, the file has %d bytes instead of %d: %s", (int) got.size(), (int) want.size(), io::log.c_str()); if (ok) CHECK(trip::errors.empty(), "save:error-with-success", "%s", trip::errors.c_str()); if (!ok) CHECK(!trip::errors.empty(), "save:silent", "SaveDocument returned false without an error message: %s", io::log.c_str());
	bool lost = false; for (const io::Fault& x : f) if (kinds[x.at] != 's') lost = true; if (lost) CHECK(!ok, "save:failure-not-reported", "%s", io::log.c_str());
	CHECK(io::open == 0, "save:open", "%d files remain open: %s", io::open, io::log.c_str()); CHECK(Dump::of(doc.d) == before, "save:document", "a failing export changed the document"); CHECK(FCollada::SaveDocument(doc.d, a.c_str()) && trip::noDates(bytes(a)) == want, "save:again", "the export that follows is not right");
	c.state(io::log); c.nontrivial();
}
// Import.
void loading(mc::Ctx& c, bool two)
{
	int k = c.choose(DOCS + 1); Dir dir; string a = dir / "a.dae"; unlink(a.c_str()); { Doc doc; fill(doc.d, k % DOCS); CHECK(FCollada::SaveDocument(doc.d, a.c_str()), "load:prepare", "not saved"); } trip::Listen l;
	// Trailing white space: what remains of a file that was cut short still parses.
	if (k == DOCS) put(a, bytes(a) + string(3000, '\n')); string text = bytes(a), want; vector<char> kinds; { Doc doc; { io::Arm arm; bool ok = FCollada::LoadDocumentFromFile(doc.d, a.c_str()); kinds = io::kinds; CHECK(ok && io::open == 0, "load:undisturbed", "%s", trip::errors.c_str()); } want = Dump::of(doc.d); }
	vector<io::Fault> f = faults(c, kinds, two); trip::errors = ""; Doc doc; bool ok; { io::Arm arm(f); ok = FCollada::LoadDocumentFromFile(doc.d, a.c_str()); } CHECK(io::hit, "load:calls", "the calls differ from the undisturbed run"); string key, what;
	if (ok) { string got = Dump::of(doc.d); if (textDiff(want, got, key, what)) c.fail("load:success-reported", "%s: %s", io::log.c_str(), what.c_str()); } else CHECK(!trip::errors.empty(), "load:silent", "no error message: %s", io::log.c_str());
	bool lost = false; for (const io::Fault& x : f) if (kinds[x.at] == 'o' || kinds[x.at] == 'r' && x.how != io::SHORT) lost = true; if (lost) CHECK(!ok, "load:failure-not-reported", "%s", io::log.c_str());
	CHECK(io::open == 0, "load:open", "%d files remain open: %s", io::open, io::log.c_str()); CHECK(bytes(a) == text, "load:file", "the file was changed"); Doc again; CHECK(FCollada::LoadDocumentFromFile(again.d, a.c_str()) && Dump::of(again.d) == want, "load:again", "the import that follows is not right"); c.state(io::log); c.nontrivial();
}
// A document that refers to another file.
void referring(mc::Ctx& c, bool two)
{
	c.tolerateAsserts = true; Dir dir; string a = dir / "a.dae", b = dir / "b.dae"; { Doc one, other; FCDCamera* cam = other.d->GetCameraLibrary()->AddEntity(); CHECK(FCollada::SaveDocument(other.d, b.c_str()), "refer:prepare", "not saved"); other.d->SetFileUrl(b.c_str()); FCDSceneNode* v = one.d->AddVisualScene(); v->AddInstance(cam); one.d->SetFileUrl(a.c_str()); CHECK(FCollada::SaveDocument(one.d, a.c_str()), "refer:prepare", "not saved"); }
	trip::Listen l; auto load = [&](Doc& doc, bool& found) { bool ok = FCollada::LoadDocumentFromFile(doc.d, a.c_str()); found = false; if (ok && doc.d->GetVisualSceneLibrary()->GetEntityCount()) { FCDSceneNode* v = doc.d->GetVisualSceneLibrary()->GetEntity(0); if (v->GetInstanceCount()) { FCDEntity* e = v->GetInstance(0)->GetEntity(); found = e && e->HasType(FCDCamera::GetClassType()); } } return ok; };
	vector<char> kinds; { Doc doc; bool found; { io::Arm arm; CHECK(load(doc, found), "refer:undisturbed", "%s", trip::errors.c_str()); CHECK(found, "refer:unresolved", "the reference is not resolved"); kinds = io::kinds; } }
	vector<io::Fault> f = faults(c, kinds, two); trip::errors = ""; Doc doc; bool found, ok; { io::Arm arm(f); ok = load(doc, found); } if (!ok || !found) CHECK(!trip::errors.empty(), "refer:silent", "%s", io::log.c_str()); CHECK(io::open == 0, "refer:open", "%d files remain open: %s", io::open, io::log.c_str()); c.state(io::log); c.nontrivial();
}
// XML documents by themselves.
void xml(mc::Ctx& c, bool two)
{
	int n = c.pick<int>({ 0, 1, 40 }); Dir dir; string a = dir / "a.xml"; unlink(a.c_str()); auto write = [&] { FUXmlDocument x(NULL, a.c_str(), false); xmlNode* r = x.CreateRootNode("root"); for (int i = 0; i < n; ++i) FUXmlWriter::AddChild(r, "child", "some text for it"); return x.Write("utf-8"); };
	auto count = [&] { FUXmlDocument x(NULL, a.c_str(), true); xmlNode* r = x.GetRootNode(); if (!r) return -1; xmlNodeList l; FUXmlParser::FindChildrenByType(r, "child", l); return (int) l.size(); };
	bool reading = c.flag(); vector<char> kinds; { io::Arm arm; CHECK(write(), "xml:undisturbed", "not written"); if (!reading) kinds = io::kinds; } string want = bytes(a); { io::Arm arm; CHECK(count() == n, "xml:read", "%d children of %d", count(), n); if (reading) kinds = io::kinds; }
	vector<io::Fault> f = faults(c, kinds, two); io::Arm arm(f); if (reading) { int r = count(); CHECK(r == -1 || r == n, "xml:part", "%d children of %d: %s", r, n, io::log.c_str()); for (const io::Fault& x : f) if (kinds[x.at] == 'o' || kinds[x.at] == 'r' && x.how != io::SHORT) CHECK(r == -1, "xml:read-failure", "%s", io::log.c_str()); } else { bool ok = write(); CHECK(!ok || bytes(a) == want, "xml:success-reported", "%s", io::log.c_str()); for (const io::Fault& x : f) if (kinds[x.at] != 's') CHECK(!ok, "xml:failure-not-reported", "%s", io::log.c_str()); }
	CHECK(io::open == 0, "xml:open", "%d files remain open", io::open); c.state(io::log); c.nontrivial();
}
SPACE(save, 2) { saving(c, false); } SPACE(savePairs, 3) { saving(c, true); } SPACE(load, 2) { loading(c, false); } SPACE(loadPairs, 3) { loading(c, true); } SPACE(refer, 1) { referring(c, false); } SPACE(referPairs, 1) { referring(c, true); } SPACE(xmlFile, 2) { xml(c, false); } SPACE(xmlPairs, 2) { xml(c, true); }
// Files: every sequence of operations, in lock step with a model of the bytes; then with each fault.
const vector<size_t> SIZES = { 0, 1, 511, 513, 1500 };
string pattern(size_t from, size_t n) { string s; for (size_t i = 0; i < n; ++i) s += (char) ('a' + (from + i) * 7 % 26); return s; }
struct Step { int op; size_t n; };
// Runs the steps; returns whether everything was reported to have succeeded.
bool writing(mc::Ctx& c, const string& path, const vector<Step>& steps, string& model, bool faulty)
{
	bool ok = true; model = ""; FUFile f; CHECK(!f.IsOpen() && f.GetHandle() == NULL, "file:new", "a new file is open"); ok = f.Open(path.c_str(), FUFile::WRITE); CHECK(ok == f.IsOpen(), "file:open", "Open returned %d", ok); if (!ok) { CHECK(faulty, "file:open-failed", "no fault"); return false; }
	CHECK(!f.Open(path.c_str(), FUFile::READ), "file:open-twice", "an open file can be opened again");
	for (const Step& s : steps) { if (s.op == 0) { string p = pattern(model.size(), s.n); bool w = f.Write(p.data(), p.size()); CHECK(w || faulty, "file:write", "Write of %d returned false", (int) s.n); ok &= w; model += p; } else if (s.op == 1) { bool w = f.Flush(); CHECK(w || faulty, "file:flush", "Flush returned false"); ok &= w; if (w && ok) CHECK(bytes(path) == model, "file:flushed", "%d bytes of %d after Flush: %s", (int) bytes(path).size(), (int) model.size(), io::log.c_str()); } else { size_t n = f.GetLength(); CHECK(n == model.size() || faulty, "file:length", "%d of %d", (int) n, (int) model.size()); if (n != model.size()) ok = false; } }
	bool w = f.Close(); CHECK(w || faulty, "file:close", "Close returned false"); CHECK(!f.IsOpen(), "file:closed", "a closed file is open"); return ok && w;
}
vector<Step> steps(mc::Ctx& c, int n) { vector<Step> r; for (int i = 0; i < n; ++i) { int o = c.choose((int) SIZES.size() + 3); if (o == 0) break; Step s = { o <= (int) SIZES.size() ? 0 : o - (int) SIZES.size(), o <= (int) SIZES.size() ? SIZES[o - 1] : 0 }; static const char* N[] = { "write", "flush", "length" }; c.op("%s %d", N[s.op], (int) s.n); r.push_back(s); } return r; }
SPACE(fileWrites, 2)
{
	vector<Step> s = steps(c, c.deep ? 4 : 3); string path = Dir() / "f", model; unlink(path.c_str()); vector<char> kinds; { io::Arm arm; bool ok = writing(c, path, s, model, false); CHECK(ok && io::open == 0, "file:undisturbed", "%d", io::open); kinds = io::kinds; } CHECK(bytes(path) == model, "file:bytes", "%d bytes, not %d", (int) bytes(path).size(), (int) model.size());
	vector<io::Fault> f = faults(c, kinds, true); bool ok; { io::Arm arm(f); ok = writing(c, path, s, model, true); } CHECK(io::open == 0, "file:left-open", "%s", io::log.c_str()); string got; if (io::kinds.size()) got = bytes(path); CHECK(!ok || got == model, "file:success-reported", "every operation succeeded, and the file has %d bytes instead of %d: %s", (int) got.size(), (int) model.size(), io::log.c_str());
	bool lost = false; for (size_t i = 0; i < f.size(); ++i) if (kinds[f[i].at] != 's') lost = true; if (lost && f.size() == 1) CHECK(!ok, "file:failure-not-reported", "%s", io::log.c_str()); c.state(io::log + mc::strf("%d", (int) model.size())); c.nontrivial();
}
SPACE(fileReads, 2)
{
	size_t size = c.pick<size_t>({ 0, 1, 512, 1300 }); string path = Dir() / "f", all = pattern(3, size); put(path, all); int n = c.choose(4); vector<Step> s; for (int i = 0; i < n; ++i) { int o = c.choose(7); static const size_t N[] = { 0, 1, 200, 511, 512, 1301 }; s.push_back({ o == 6 ? 2 : 0, o == 6 ? 0 : N[o] }); c.op("%s %d", o == 6 ? "length" : "read", (int) s.back().n); }
	auto run = [&](bool faulty) { FUFile f(path.c_str(), FUFile::READ); CHECK(f.IsOpen() || faulty, "read:open", "not open"); if (!f.IsOpen()) return; size_t at = 0; bool broken = false; for (const Step& x : s) { if (x.op == 2) { size_t l = f.GetLength(); CHECK(l == size || l == 0 && faulty, "read:length", "%d of %d", (int) l, (int) size); if (l != size || io::hit) broken = true; continue; } string b(x.n + 1, '#'); bool ok = f.Read(&b[0], x.n); bool can = at + x.n <= size; CHECK(b[x.n] == '#', "read:beyond", "more than the buffer was written"); if (!faulty) CHECK(ok == can, "read:result", "Read of %d at %d of %d returned %d", (int) x.n, (int) at, (int) size, ok); if (ok && !broken) CHECK(can && b.substr(0, x.n) == all.substr(at, x.n), "read:contents", "Read of %d at %d of %d succeeded: %s", (int) x.n, (int) at, (int) size, io::log.c_str()); if (!ok) broken = true; at = std::min(at + x.n, size); } bool w = f.Close(); CHECK(w || faulty, "read:close", "not closed"); };
	vector<char> kinds; { io::Arm arm; run(false); kinds = io::kinds; CHECK(io::open == 0, "read:left-open", "%d", io::open); } for (size_t i = kinds.size(); i-- > 0; ) if (kinds[i] == 'c') kinds.erase(kinds.begin() + i); vector<io::Fault> f = faults(c, kinds, true); { io::Arm arm(f); run(true); } CHECK(io::open == 0, "read:left-open", "%s", io::log.c_str()); c.state(io::log); c.nontrivial();
}
// Files that are not there, are folders, or may not be written.
SPACE(places, 1)
{
	Dir dir; int what = c.choose(5); string p = what == 0 ? dir / "missing.dae" : what == 1 ? dir.p : what == 2 ? dir / "no/such/folder/a.dae" : what == 3 ? dir / "empty.dae" : dir / "garbage.dae"; if (what == 3) put(p, ""); if (what == 4) put(p, "garbage"); trip::Listen l; bool save = c.flag(), folder = what == 1 || what == 2; c.op("%s %s", save ? "save" : "load", p.c_str() + dir.p.size()); if (what == 1) { p = dir / "folder.dae"; mkdir(p.c_str(), 0700); } if (what == 0) unlink(p.c_str());
	Doc doc; fill(doc.d, 1); if (save) { bool ok = FCollada::SaveDocument(doc.d, p.c_str()); CHECK(ok == !folder, "place:save", "SaveDocument returned %d", ok); if (!ok) CHECK(!trip::errors.empty(), "place:save-silent", "no error message"); } else { Doc e; bool ok = FCollada::LoadDocumentFromFile(e.d, p.c_str()); CHECK(!ok, "place:load", "LoadDocumentFromFile returned true"); CHECK(!trip::errors.empty(), "place:load-silent", "no error message"); } if (what == 1) rmdir(p.c_str()); if (what == 3 || what == 4) unlink(p.c_str()); FUFileManager m; c.state(p.substr(dir.p.size()) + (save ? "s" : "l")); c.nontrivial();
}
}
