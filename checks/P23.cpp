// P23: fm::vector / fm::pvector / fm::tree (map, set) / sort agree with reference containers.
#include "mc.h"
#include <map>
#include <algorithm>
#include <cmath>
#include "FCollada.h"
const char* mc::property = "P23"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence of container operations up to the stated depth over a small value alphabet, run on the real container and on a std reference in lock step, plus all insertion orders followed by all erase orders for trees; a case is non-trivial when at least one comparison of contents was made";
std::vector<std::string> mc::assumptions = { "element and key alphabets of 3..12 distinct values", "values left uninitialised by resize(count) of plain types are not compared", "range insertion from the vector itself is excluded (undefined for std containers too)" };
using std::vector; using std::string;

// An element that knows whether it is alive, owns memory, and counts instances.
static int live = 0;
struct El
{
	int* p;
	El() : p(new int(-1)) { ++live; }
	El(int v) : p(new int(v)) { ++live; }
	El(const El& o) : p(new int(*o.p)) { ++live; }
	El& operator=(const El& o) { int v = *o.p; *p = v; return *this; }
	~El() { delete p; p = NULL; --live; }
	bool operator==(const El& o) const { return *p == *o.p; }
	bool operator<(const El& o) const { return *p < *o.p; }
	int v() const { return *p; }
};
static int val(const El& e) { return e.v(); }
static int val(int e) { return e; }

template <class T> static string dump(const vector<int>& r) { string s; for (int x : r) s += mc::strf("%d ", x); return s; }
template <class V> static string dumpv(const V& v) { string s; for (size_t i = 0; i < v.size(); ++i) s += mc::strf("%d ", val(v.at(i))); return s; }

template <class T> static void same(mc::Ctx& c, const fm::vector<T>& v, const vector<int>& r, const char* op)
{
	CHECK(v.size() == r.size(), "vector:size", "%s: size %zu, expected %zu", op, v.size(), r.size());
	CHECK(v.empty() == r.empty(), "vector:empty", "%s: empty()", op);
	CHECK(v.capacity() >= v.size(), "vector:capacity", "%s: capacity %zu < size %zu", op, v.capacity(), v.size());
	size_t i = 0;
	for (typename fm::vector<T>::const_iterator it = v.begin(); it != v.end(); ++it, ++i)
		CHECK(i < r.size() && val(*it) == r[i], "vector:contents", "%s: [%s], expected [%s]", op, dumpv(v).c_str(), dump<int>(r).c_str());
	CHECK(i == r.size(), "vector:iteration", "%s: %zu elements iterated", op, i);
	if (!r.empty()) CHECK(val(v.front()) == r.front() && val(v.back()) == r.back() && val(v[r.size() / 2]) == r[r.size() / 2], "vector:access", "%s: front/back/[]", op);
}

template <class T> static void vectorOps(mc::Ctx& c, int depth)
{
	int live0 = live;
	{
		fm::vector<T> v; vector<int> r; int fresh = 10;
		// start states of different size/capacity relations
		int start = c.choose(5);
		if (start == 1) { for (int i = 0; i < 3; ++i) { v.push_back(T(i)); r.push_back(i); } }
		if (start == 2) { v.reserve(6); for (int i = 0; i < 3; ++i) { v.push_back(T(i % 2)); r.push_back(i % 2); } }
		if (start == 3) { v = fm::vector<T>(2, T(7)); r.assign(2, 7); }
		if (start == 4) { v.resize(34, T(1)); r.assign(34, 1); v.back() = T(2); r.back() = 2; }
		c.op("start %d", start);
		same(c, v, r, "start");
		for (int d = 0; d < depth; ++d)
		{
			size_t n = r.size(); int what = c.choose(19); string name;
			switch (what)
			{
			case 0: name = "push_back"; v.push_back(T(fresh)); r.push_back(fresh); ++fresh; break;
			case 1: name = "push_front"; v.push_front(T(fresh)); r.insert(r.begin(), fresh); ++fresh; break;
			case 2: { size_t at = n / 2; name = "insert(mid)"; typename fm::vector<T>::iterator it = v.insert(v.begin() + at, T(fresh)); r.insert(r.begin() + (long) at, fresh); CHECK(it - v.begin() == (intptr_t) at, "vector:insert-result", "insert returned index %td", it - v.begin()); ++fresh; break; }
			case 3: { size_t at = c.choose(3) * n / 2; int cnt = c.choose(3); name = mc::strf("insert(%zu, %d x)", at, cnt); v.insert(v.begin() + at, (size_t) cnt, T(fresh)); r.insert(r.begin() + (long) at, (size_t) cnt, fresh); ++fresh; break; }
			case 4: { size_t at = c.choose(3) * n / 2; int cnt = c.choose(2) ? 2 : 35; T src[35]; vector<int> rs; for (int i = 0; i < cnt; ++i) { src[i] = T(20 + i); rs.push_back(20 + i); } name = mc::strf("insert(%zu, range %d)", at, cnt); v.insert(v.begin() + at, src, (size_t) cnt); r.insert(r.begin() + (long) at, rs.begin(), rs.end()); break; }
			case 5: if (n == 0) c.prune(); name = "pop_back"; v.pop_back(); r.pop_back(); break;
			case 6: if (n == 0) c.prune(); name = "pop_front"; v.pop_front(); r.erase(r.begin()); break;
			case 7: { if (n == 0) c.prune(); size_t at = n == 1 ? 0 : c.choose(2) ? n - 1 : n / 2; name = mc::strf("erase(it %zu)", at); typename fm::vector<T>::iterator it = v.erase(v.begin() + at); r.erase(r.begin() + (long) at); CHECK(it - v.begin() == (intptr_t) at, "vector:erase-result", "erase returned index %td, expected %zu", it - v.begin(), at); break; }
			case 8: { static const int lo[] = { 0, 0, 1, 1, 0 }, hi[] = { 0, 1, 1, 2, 2 }; int k = c.choose(5); size_t a = n * (size_t) lo[k] / 2, b = n * (size_t) hi[k] / 2; name = mc::strf("erase(%zu, %zu)", a, b); v.erase(v.begin() + a, v.begin() + b); r.erase(r.begin() + (long) a, r.begin() + (long) b); break; }
			case 9: { int x = c.choose(3); name = mc::strf("erase(value %d)", x); bool got = v.erase(T(x)); vector<int>::iterator it = std::find(r.begin(), r.end(), x); bool exp = it != r.end(); if (exp) r.erase(it); CHECK(got == exp, "vector:erase-value", "erase(%d) returned %d", x, got); break; }
			case 10: name = "clear"; v.clear(); r.clear(); break;
			case 11: { size_t k = n + (size_t) c.choose(3); name = mc::strf("reserve(%zu)", k); v.reserve(k); CHECK(v.capacity() >= k, "vector:reserve", "capacity %zu after reserve(%zu)", v.capacity(), k); break; }
			case 12: { static const int dl[] = { -1, 1, 3 }; int k = c.choose(3); long t = (long) n + dl[k]; if (t < 0) c.prune(); name = mc::strf("resize(%ld, v)", t); v.resize((size_t) t, T(fresh)); r.resize((size_t) t, fresh); ++fresh; break; }
			case 13: { name = "copy"; fm::vector<T> w(v); same(c, w, r, "copy constructor"); CHECK(w == v, "vector:==", "copy not equal"); w.push_back(T(3)); CHECK(!(w == v), "vector:==", "longer copy equal"); v = w; r.push_back(3); break; }
			case 14: { name = "assign smaller"; fm::vector<T> w; w.push_back(T(5)); v = w; r.assign(1, 5); break; }
			case 15: { name = "self assign"; fm::vector<T>& w = v; v = w; break; }
			case 16: { int x = c.choose(3); name = mc::strf("replace %d", x); v.replace(T(x), T(9)); std::replace(r.begin(), r.end(), x, 9); CHECK(v.contains(T(9)) == (std::find(r.begin(), r.end(), 9) != r.end()), "vector:contains", "contains"); CHECK((size_t) (v.find(T(9)) - v.begin()) == (size_t) (std::find(r.begin(), r.end(), 9) - r.begin()), "vector:find", "find"); break; }
			case 17: if (n == 0) c.prune(); name = "push_back(own front)"; v.push_back(v.front()); r.push_back(int(r.front())); break;
			case 18: if (n == 0) c.prune(); name = "insert(begin, own back)"; v.insert(v.begin(), v.back()); r.insert(r.begin(), int(r.back())); break;
			}
			c.op("%s", name.c_str());
			same(c, v, r, name.c_str());
			c.state(mc::strf("%zu|%s", v.capacity() - v.size() > 3 ? (size_t) 3 : v.capacity() - v.size(), dump<int>(r).c_str()));
		}
	}
	CHECK(live == live0, "vector:leak", "%d elements still alive after the vector is gone (negative: destroyed twice)", live - live0);
}
SPACE(vector_plain, 2) { vectorOps<int>(c, c.deep ? 4 : 3); }
SPACE(vector_objects, 2) { vectorOps<El>(c, c.deep ? 4 : 3); }

// pvector
SPACE(pvector_ops, 2)
{
	static El pool[6] = { El(0), El(1), El(2), El(3), El(4), El(5) };
	fm::pvector<El> v; vector<El*> r; int depth = c.deep ? 5 : 4;
	int start = c.choose(3);
	for (int i = 0; i < start * 2; ++i) { v.push_back(pool + i % 3); r.push_back(pool + i % 3); }
	for (int d = 0; d < depth; ++d)
	{
		size_t n = r.size(); int what = c.choose(11); 
		El* x = pool + (d % 2 ? 4 : 1);
		switch (what)
		{
		case 0: c.op("push_back"); v.push_back(x); r.push_back(x); break;
		case 1: { size_t at = (size_t) c.choose(3) * n / 2; c.op("insert %zu", at); fm::pvector<El>::iterator it = v.insert(v.begin() + at, x); r.insert(r.begin() + (long) at, x); CHECK((size_t) (it - v.begin()) == at, "pvector:insert-result", "index"); break; }
		case 2: { size_t at = (size_t) c.choose(3) * n / 2; c.op("insert range at %zu", at); El* src[3] = { pool, pool + 5, pool }; v.insert(v.begin() + at, src, src + 3); r.insert(r.begin() + (long) at, src, src + 3); break; }
		case 3: { if (!n) c.prune(); size_t at = n == 1 ? 0 : c.choose(2) ? n - 1 : 0; c.op("erase %zu", at); fm::pvector<El>::iterator it = v.erase(v.begin() + at); r.erase(r.begin() + (long) at); CHECK(at == r.size() || *it == r[at], "pvector:erase-result", "result"); break; }
		case 4: { El* y = pool + c.choose(3); c.op("erase value"); bool got = v.erase(y); vector<El*>::iterator it = std::find(r.begin(), r.end(), y); bool e = it != r.end(); if (e) r.erase(it); CHECK(got == e, "pvector:erase-value", "got %d", got); break; }
		case 5: { c.op("clear"); v.clear(); r.clear(); break; }
		case 6: { size_t t = (size_t) c.choose(3); c.op("resize %zu", t); v.resize(t); r.resize(t, NULL); break; }
		case 7: { c.op("copy+assign"); fm::pvector<El> w(v); w.push_back(x); v = w; r.push_back(x); break; }
		case 8: { c.op("self assign"); fm::pvector<El>& w = v; v = w; break; }
		case 9: { if (n < 2) c.prune(); c.op("erase range"); v.erase(v.begin(), v.begin() + 2); r.erase(r.begin(), r.begin() + 2); break; }
		case 10: { c.op("replace"); v.replace(pool + 1, pool + 3); std::replace(r.begin(), r.end(), pool + 1, pool + 3); break; }
		}
		CHECK(v.size() == r.size(), "pvector:size", "size %zu expected %zu", v.size(), r.size());
		size_t i = 0; string st;
		for (fm::pvector<El>::iterator it = v.begin(); it != v.end(); ++it, ++i) CHECK(i < r.size() && *it == r[i], "pvector:contents", "element %zu", i);
		CHECK(i == r.size(), "pvector:contents", "%zu iterated", i);
		for (i = 0; i < r.size(); ++i) { CHECK(v[i] == r[i] && v.at(i) == r[i], "pvector:access", "[%zu]", i); st += mc::strf("%d ", r[i] ? (int) (r[i] - pool) : -1); }
		for (int k = 0; k < 6; ++k) { CHECK((size_t) (v.find(pool + k) - v.begin()) == (size_t) (std::find(r.begin(), r.end(), pool + k) - r.begin()), "pvector:find", "find"); CHECK(v.contains(pool + k) == (std::count(r.begin(), r.end(), pool + k) > 0), "pvector:contains", "contains"); }
		c.state(st);
	}
}

// Trees. The key counts its comparisons, so that the depth of every lookup is observed.
static int cmps = 0;
struct Key { int k; El own; Key() : k(0) {} Key(int x) : k(x), own(x) {} bool operator<(const Key& o) const { ++cmps; return k < o.k; } bool operator==(const Key& o) const { return k == o.k; } };
typedef fm::map<Key, El> Map; typedef std::map<int, int> Ref;

static void sameTree(mc::Ctx& c, Map& m, const Ref& r, int keys, const char* op)
{
	CHECK(m.size() == r.size() && m.empty() == r.empty(), "tree:size", "%s: size %zu, expected %zu", op, m.size(), r.size());
	const Map& cm = m;
	Ref::const_iterator q = r.begin(); Map::const_iterator ci = cm.begin();
	for (Map::iterator it = m.begin(); it != m.end(); ++it, ++q, ++ci)
	{
		CHECK(q != r.end(), "tree:iteration", "%s: too many elements iterated", op);
		CHECK(it->first.k == q->first && it->second.v() == q->second, "tree:iteration", "%s: (%d,%d) expected (%d,%d)", op, it->first.k, it->second.v(), q->first, q->second);
		CHECK(ci != cm.end() && ci->first.k == q->first && ci->second.v() == q->second, "tree:const-iteration", "%s: const iterator", op);
	}
	CHECK(q == r.end() && ci == cm.end(), "tree:iteration", "%s: too few elements iterated", op);
	// and backwards from the last element
	if (!r.empty())
	{
		Ref::const_reverse_iterator rq = r.rbegin(); Map::const_iterator cb = cm.last();
		for (Map::iterator it = m.last(); it != m.end(); --it, --cb, ++rq) CHECK(rq != r.rend() && it->first.k == rq->first && cb->first.k == rq->first, "tree:reverse-iteration", "%s: backwards", op);
		CHECK(rq == r.rend() && cb == cm.end(), "tree:reverse-iteration", "%s: backwards too short, or the const iterator does not end", op);
	}
	int bound = (int) std::floor(1.4405 * std::log2((double) r.size() + 2.0)) ;   // height of an AVL tree
	for (int k = -1; k <= keys; ++k)
	{
		Key kk(k); cmps = 0; Map::iterator it = m.find(kk); int depth = cmps; Ref::const_iterator e = r.find(k);
		CHECK((it != m.end()) == (e != r.end()), "tree:find", "%s: find(%d)", op, k);
		CHECK((cm.find(kk) != cm.end()) == (e != r.end()), "tree:find", "%s: const find(%d)", op, k);
		if (e != r.end()) CHECK(it->first.k == k && it->second.v() == e->second, "tree:find", "%s: find(%d) gives the wrong entry", op, k);
		CHECK(depth <= bound, "tree:balance", "%s: find(%d) visits %d levels in a tree of %zu", op, k, depth, r.size());
	}
}
static string refStr(const Ref& r) { string s; for (auto& x : r) s += mc::strf("%d:%d ", x.first, x.second); return s; }

// all operation sequences on few keys
SPACE(tree_sequences, 2)
{
	int live0 = live; int K = 4, depth = c.deep ? 6 : 5;
	{
		Map m; Ref r; int fresh = 1;
		for (int d = 0; d < depth; ++d)
		{
			int what = c.choose(2 * K + 4);
			if (what < K) { c.op("insert %d", what); Map::iterator it = m.insert(Key(what), El(fresh)); r[what] = fresh; CHECK(it->first.k == what && it->second.v() == fresh, "tree:insert-result", "insert returned the wrong entry"); ++fresh; }
			else if (what < 2 * K) { int k = what - K; c.op("erase %d", k); m.erase(Key(k)); r.erase(k); }
			else if (what == 2 * K) { c.op("m[2] = v"); m[Key(2)] = El(fresh); r[2] = fresh; ++fresh; }
			else if (what == 2 * K + 1) { c.op("clear"); m.clear(); r.clear(); }
			else if (what == 2 * K + 2) { c.op("assign from a copy"); Map w; w.insert(Key(9), El(9)); w = m; sameTree(c, w, r, K, "assigned"); w.insert(Key(1), El(77)); sameTree(c, m, r, K, "source after changing the copy"); m = w; r[1] = 77; }
			else { c.op("copy construct, self assign"); Map w(m); sameTree(c, w, r, K, "copy constructed"); w.erase(Key(1)); sameTree(c, m, r, K, "source after erasing in the copy"); Map& s = m; m = s; }
			sameTree(c, m, r, K, "op"); c.state(refStr(r));
		}
	}
	CHECK(live == live0, "tree:leak", "%d values alive after the tree is gone", live - live0);
}
// all insertion orders of n keys, then all orders of erasing e of them
static void orders(mc::Ctx& c, int n, int e)
{
	int live0 = live;
	{
		Map m; Ref r; vector<int> left; for (int i = 0; i < n; ++i) left.push_back(i);
		for (int i = 0; i < n; ++i) { int at = c.choose((int) left.size()); int k = left[(size_t) at]; left.erase(left.begin() + at); c.op("insert %d", k); m.insert(Key(k), El(k * 3)); r[k] = k * 3; }
		sameTree(c, m, r, n, "after the insertions");
		for (int i = 0; i < e && !r.empty(); ++i)
		{
			int at = c.choose((int) r.size()); Ref::iterator q = r.begin(); std::advance(q, at); c.op("erase %d", q->first);
			m.erase(m.find(Key(q->first))); r.erase(q); sameTree(c, m, r, n, "after erasing");
		}
		c.state(refStr(r));
	}
	CHECK(live == live0, "tree:leak", "%d values alive after the tree is gone", live - live0);
}
SPACE(tree_orders, 3) { orders(c, c.deep ? 7 : 6, c.deep ? 3 : 3); }
SPACE(tree_full_erase, 3) { orders(c, 5, 5); }
// all insertion orders of n even keys, then a copy, which every sequence of edits at odd and even keys changes
SPACE(tree_copy_edit, 3)
{
	int n = 1 + c.choose(6), edits = c.deep ? 4 : n == 6 ? 2 : 3; Map m, w; Ref r, q; vector<int> left;
	for (int i = 0; i < n; ++i) left.push_back(i);
	for (int i = 0; i < n; ++i) { int at = c.choose((int) left.size()); int k = left[(size_t) at] * 2; left.erase(left.begin() + at); c.op("insert %d", k); m.insert(Key(k), El(k)); r[k] = k; }
	w = m; q = r; c.op("copy");
	sameTree(c, w, q, 2 * n, "copied");
	for (int i = 0; i < edits; ++i)
	{
		int k = c.choose(2 * n + 1) - 1; c.op("%s %d in the copy", q.count(k) ? "erase" : "insert", k);
		if (q.count(k)) { w.erase(Key(k)); q.erase(k); } else { w.insert(Key(k), El(100 + k)); q[k] = 100 + k; }
		sameTree(c, w, q, 2 * n, "edited copy");
	}
	sameTree(c, m, r, 2 * n, "original"); c.state(refStr(q));
}
// bigger trees from structured insertion orders, every triple of erasures
SPACE(tree_big, 2)
{
	static const int sizes[] = { 8, 12, 13, 16, 20, 26, 33 };
	int si = c.choose(c.deep ? 7 : 5), n = sizes[si], pat = c.choose(6); Map m; Ref r;
	for (int i = 0; i < n; ++i)
	{
		int k = 0;
		switch (pat) { case 0: k = i; break; case 1: k = n - 1 - i; break; case 2: k = i % 2 ? n - 1 - i / 2 : i / 2; break; case 3: k = (i * 7 + 3) % n; if (n % 7 == 0) c.prune(); break; case 4: k = (i * 5) % n; if (n % 5 == 0) c.prune(); break; case 5: k = i % 2 ? (n / 2 + 1 + i / 2) % n : n / 2 - i / 2; break; }
		if (k < 0) k += n;
		m.insert(Key(k), El(i)); r[k] = i;
	}
	c.op("pattern %d of %d", pat, n);
	sameTree(c, m, r, n, "built");
	// erase a run starting anywhere, with a stride, then two more
	int a = c.choose(n), stride = c.choose(3) + 1, cnt = 1 + c.choose(n > 12 ? 12 : n - 1);
	for (int i = 0; i < cnt; ++i) { int k = (a + i * stride) % n; c.op("erase %d", k); m.erase(Key(k)); r.erase(k); sameTree(c, m, r, n, "after erasing"); }
	c.state(refStr(r));
	if (c.flag()) { int k = (a * 2) % n; m.insert(Key(k), El(99)); r[k] = 99; c.op("insert %d", k); sameTree(c, m, r, n, "after re-inserting"); }
}
// sets
SPACE(set_ops, 1)
{
	fm::set<int> s; std::map<int, int> r; int depth = c.deep ? 6 : 5;
	for (int d = 0; d < depth; ++d)
	{
		int k = c.choose(4); if (c.flag()) { s.insert(k, k); r[k] = k; c.op("insert %d", k); } else { s.erase(k); r.erase(k); c.op("erase %d", k); }
		CHECK(s.size() == r.size(), "set:size", "size"); for (int i = 0; i < 4; ++i) CHECK((s.find(i) != s.end()) == (r.count(i) > 0), "set:find", "find %d", i);
		c.state(refStr(r));
	}
}
// Sorting: every array over a small alphabet
struct Down : fm::comparator<El> { virtual bool compare(const El& a, const El& b) { return b < a; } };
SPACE(sort_all, 2)
{
	int n = c.choose(c.deep ? 8 : 7); int how = c.choose(3); fm::vector<El> v; fm::vector<int> w; vector<int> r;
	for (int i = 0; i < n; ++i) { int x = c.choose(4); v.push_back(El(x)); w.push_back(x); r.push_back(x); }
	std::sort(r.begin(), r.end());
	if (how == 0) v.sort(); else if (how == 1) { Down d; v.sort(d); std::reverse(r.begin(), r.end()); } else { fm::icomparator<El> d; v.sort(d); std::reverse(r.begin(), r.end()); }
	w.sort(); c.op("sort %d elements, order %d", n, how);
	for (int i = 0; i < n; ++i) { CHECK(v[(size_t) i].v() == r[(size_t) i], "sort:order", "element %d is %d, expected %d", i, v[(size_t) i].v(), r[(size_t) i]); CHECK(i == 0 || !(w[(size_t) i] < w[(size_t) i - 1]), "sort:order", "plain sort"); }
	c.nontrivial(); c.state(dump<int>(r));
}
