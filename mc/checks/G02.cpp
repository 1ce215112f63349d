// G02: the arrays and hash tables of the generated C library against a sequence and a map, every operation history up to a depth.
#include "libs.hpp"
const char* mc::PROPERTY = "G02";
typedef std::vector<int> V;
static const libs::Lib* C;
static std::string run(int family, int reserve, int direct, int fail_at, std::vector<MC_STEP> const& ops) { libs::emitted.clear(); bool dead = mc::fatal([&] { C->seq(family, reserve, direct, fail_at, ops.data(), (int)ops.size()); }); for (auto b : libs::blocks) free(b); libs::blocks.clear(); mc::transition(); return dead ? "(fatal)" : libs::emitted; }
// ---- arrays
enum Op { APPEND, POP, REMOVE_AT, APPEND_AT, APPEND_ITEMS, APPEND_ARRAY, APPEND_ITEMS_AT, CLEAR, FILL, RESIZE, RESERVE, SET_CAPACITY, GROW, BACK };
static const char* names[] = { "append", "pop", "remove_at", "append_at", "append_items", "append_array", "append_items_at", "clear", "fill", "resize", "reserve", "set_capacity", "grow", "back" };
static std::vector<MC_STEP> alphabet(bool wide)
{
	std::vector<MC_STEP> r;
	r.push_back({APPEND,0,0}); r.push_back({POP,0,0});
	for (int i : {0,1,3}) r.push_back({REMOVE_AT,i,0});
	for (int i : {0,1,2,9}) r.push_back({APPEND_AT,i,0});
	for (int n : {1,2,9}) r.push_back({APPEND_ITEMS,n,0});
	r.push_back({APPEND_ARRAY,3,0});
	for (int n : {1,7}) for (int i : {0,1,9}) r.push_back({APPEND_ITEMS_AT,n,i});
	r.push_back({CLEAR,0,0});
	r.push_back({FILL,0,1}); r.push_back({FILL,1,3}); r.push_back({FILL,0,99});
	for (int n : {1,2,26}) r.push_back({RESIZE,n,0});
	for (int n : {4,11}) r.push_back({RESERVE,n,0});
	for (int n : {1,3,9}) r.push_back({SET_CAPACITY,n,0});
	r.push_back({GROW,5,0}); r.push_back({GROW,30,0});
	r.push_back({BACK,0,0});
	if (wide) {
		for (int n : {26,41,100,333}) { r.push_back({RESIZE,n,0}); r.push_back({APPEND_ITEMS,n,0}); r.push_back({APPEND_ITEMS_AT,n,1}); r.push_back({RESERVE,n,0}); r.push_back({SET_CAPACITY,n,0}); r.push_back({GROW,n,0}); }
		for (int i : {5,8,20,31}) { r.push_back({REMOVE_AT,i,0}); r.push_back({APPEND_AT,i,0}); r.push_back({FILL,i,i + 3}); r.push_back({RESIZE,i,0}); r.push_back({APPEND_ITEMS_AT,i,i}); r.push_back({APPEND_ARRAY,i,0}); }
	}
	return r;
}
// what the operation does to a sequence, and what it returns
static int model(V& m, MC_STEP s, int& fresh)
{
	size_t i;
	switch (s.op) {
	case APPEND: m.push_back(fresh++); return 1;
	case POP: { if (m.empty()) return 1; int v = m.back(); m.pop_back(); return v; }
	case REMOVE_AT: if ((size_t)s.a < m.size()) m.erase(m.begin() + s.a); return 1;
	case APPEND_AT: m.insert(m.begin() + std::min((size_t)s.a, m.size()), fresh++); return 1;
	case APPEND_ITEMS: case APPEND_ARRAY: for (i = 0; i < (size_t)s.a; i++) m.push_back(fresh++); return 1;
	case APPEND_ITEMS_AT: { V ins; for (i = 0; i < (size_t)s.a; i++) ins.push_back(fresh++); m.insert(m.begin() + std::min((size_t)s.b, m.size()), ins.begin(), ins.end()); return 1; }
	case CLEAR: m.clear(); return 1;
	case FILL: { bool ok = (size_t)s.b <= m.size(); if (ok) for (int k = s.a; k < s.b; k++) m[k] = fresh; fresh++; return ok; }
	case RESIZE: { size_t old = m.size(); m.resize(s.a); for (i = old; i < m.size(); i++) m[i] = fresh++; return 1; }
	case SET_CAPACITY: if (m.size() > (size_t)s.a) m.resize(s.a); return 1;
	case BACK: return m.empty() ? 0 : m.back();
	default: return 1;
	}
}
static std::string said(int family, int r, V const& m, bool hit, bool value)
{
	auto v = [&](int x) { return family == 0 ? x & 255 : x; };
	std::string e; for (int x : m) e += mc::sfmt("%d,", v(x));
	return mc::sfmt("%d|%d|", hit, value ? v(r) : r) + e + "|" + e + "|0";
}
static std::string text(std::vector<MC_STEP> const& s, const char** n) { std::string t; for (auto& x : s) t += mc::sfmt("%s(%d,%d); ", n[x.op], x.a, x.b); return t; }
static const char* types[] = { "u8", "ssize", "Token" };
static bool check(int family, int reserve, int direct, std::vector<MC_STEP> const& seq, int fail_at = 0)
{
	V m, before; int fresh = 1, r = 1; for (auto& s : seq) { before = m; r = model(m, s, fresh); }
	int last = seq.back().op; bool value = last == POP || last == BACK;
	std::string got = run(family, reserve, direct, fail_at, seq), want = said(family, r, m, false, value);
	if (fail_at && got.compare(0, 2, "1|") == 0) want = said(family, 0, before, true, value);
	mc::state(mc::mix(mc::hash_str(want), reserve)); mc::outcome(mc::mix(m.size(), last));
	if (got == want) { mc::trace_ok(); return true; }
	mc::violation(mc::sfmt("C array of %s%s, reserve %d: ", types[family], direct ? " by its functions" : "", reserve) + text(seq, names) + (fail_at ? mc::sfmt("with allocation %d failing", fail_at) : ""), "failed | returned | elements | iteration | blocks left is\n" + got + "\ninstead of\n" + want);
	return false;
}
static void arrays(int family, int reserve, int direct, int depth)
{
	auto A = alphabet(false);
	for (auto& p : A) for (auto& q : A) {
		if (!mc::begin(mc::sfmt("C array of %s%s, reserve %d: %s(%d,%d); %s(%d,%d); then every continuation to depth %d", types[family], direct ? " by its functions" : "", reserve, names[p.op], p.a, p.b, names[q.op], q.a, q.b, depth))) continue;
		std::vector<MC_STEP> seq = { p, q };
		std::function<void()> rec = [&] { if (!check(family, reserve, direct, seq) || (int)seq.size() >= depth || mc::stopped()) return; for (auto& x : A) { seq.push_back(x); rec(); seq.pop_back(); } };
		rec();
	}
}
static void arrays_long(int family, int maxn)
{
	auto A = alphabet(true);
	for (int fill = 0; fill <= maxn; fill++) for (int shrink = 0; shrink < 2; shrink++) {
		if (!mc::begin(mc::sfmt("C array of %s of %d appends%s, then every pair of operations", types[family], fill, shrink ? " and half of them popped" : ""))) continue;
		std::vector<MC_STEP> seq(fill, MC_STEP{APPEND,0,0}); if (shrink) seq.insert(seq.end(), fill / 2, MC_STEP{POP,0,0});
		for (auto& p : A) { seq.push_back(p); for (auto& q : A) { seq.push_back(q); bool ok = check(family, 0, fill & 1, seq); seq.pop_back(); if (!ok) break; } seq.pop_back(); }
	}
}
static void arrays_failing()
{
	for (int family = 0; family < 3; family++) for (int fill = 0; fill <= 9; fill++) for (auto& q : alphabet(true)) for (int fail = 1; fail <= 2; fail++) {
		if (!mc::begin(mc::sfmt("C array of %s with %d elements: %s(%d,%d) with allocation %d failing", types[family], fill, names[q.op], q.a, q.b, fail))) continue;
		std::vector<MC_STEP> seq(fill, MC_STEP{APPEND,0,0}); seq.push_back(q);
		check(family, 8, 0, seq, fail);
	}
}
// ---- tables
static const char* tnames[] = { "set", "remove", "clear", "grow", "rehash", "rehash_fast", "map_mut", "remove_entry", "write through get" };
static const unsigned long long KEYS[] = { 0, 8, 1, 24, 9, 18, 0x10000000008ull, ~0ull };
typedef std::vector<std::pair<unsigned long long, int>> M;
static unsigned long long key_of(MC_STEP s) { return s.b ? (unsigned long long)s.a * (s.b == 3 ? 0x100000000ull : (unsigned long long)s.b) : KEYS[s.a & 7]; }
static int* at(M& m, unsigned long long k) { for (auto& x : m) if (x.first == k) return &x.second; return nullptr; }
static void tmodel(M& m, MC_STEP s, int& fresh)
{
	unsigned long long k = key_of(s); int* p = at(m, k);
	switch (s.op) {
	case 0: if (p) *p = fresh; else m.push_back({ k, fresh }); fresh++; break;
	case 1: for (size_t i = 0; i < m.size(); i++) if (m[i].first == k) { m.erase(m.begin() + (long)i); break; } break;
	case 2: m.clear(); break;
	case 6: for (auto& x : m) x.second += 1000; break;
	case 7: if ((size_t)s.a < m.size()) m.erase(m.begin() + s.a); break;
	case 8: if (p) *p = fresh++; break;
	}
}
static std::string sorted(std::string s)   // the entries map visits, in any order
{
	size_t c = s.rfind('|'); if (c == std::string::npos || !c) return s; size_t b = s.rfind('|', c - 1); if (b == std::string::npos) return s;
	std::vector<std::string> v; std::string e; for (size_t i = b + 1; i < c; i++) { e += s[i]; if (s[i] == ',') { v.push_back(e); e.clear(); } }
	std::sort(v.begin(), v.end()); std::string r = s.substr(0, b + 1); for (auto& x : v) r += x; return r + e + s.substr(c);
}
static bool tcheck(int family, int reserve, int direct, std::vector<MC_STEP> const& seq)
{
	M m; int fresh = 1; for (auto& s : seq) tmodel(m, s, fresh);
	std::string want; for (auto k : KEYS) if (int* p = at(m, k)) want += mc::sfmt("%llx:%d,", k, *p);
	want += "|"; for (auto& s : seq) if (s.op == 0 && s.b) if (int* p = at(m, key_of(s))) want += mc::sfmt("%llx:%d,", key_of(s), *p);
	want += "|"; for (auto& x : m) want += mc::sfmt("%llx=%d,", x.first, x.second);
	want = sorted(want + "|0");
	std::string got = sorted(run(family, reserve, direct, 0, seq));
	mc::state(mc::hash_str(want)); mc::outcome(mc::mix(m.size(), seq.back().op));
	if (got == want) { mc::trace_ok(); return true; }
	mc::violation(mc::sfmt("C table of %s%s, reserve %d: ", family == 3 ? "Str" : "Macro", direct ? " by its functions" : "", reserve) + text(seq, tnames), "found | found | visited | blocks left is\n" + got + "\ninstead of\n" + want);
	return false;
}
static std::vector<MC_STEP> talphabet()
{
	std::vector<MC_STEP> r;
	for (int i = 0; i < 8; i++) r.push_back({ 0, i, 0 });
	for (int i = 0; i < 8; i++) r.push_back({ 1, i, 0 });
	r.push_back({2,0,0}); r.push_back({3,0,0}); for (int n : {1,2,8,16}) r.push_back({4,n,0}); r.push_back({5,0,0}); r.push_back({6,0,0});
	r.push_back({7,0,0}); r.push_back({7,1,0}); r.push_back({8,1,0});
	return r;
}
static void tables(int family, int reserve, int direct, int depth)
{
	auto A = talphabet();
	for (auto& p : A) for (auto& q : A) {
		if (!mc::begin(mc::sfmt("C table of %s%s, reserve %d: %s(%d); %s(%d); then every continuation to depth %d", family == 3 ? "Str" : "Macro", direct ? " by its functions" : "", reserve, tnames[p.op], p.a, tnames[q.op], q.a, depth))) continue;
		std::vector<MC_STEP> seq = { p, q };
		std::function<void()> rec = [&] { if (!tcheck(family, reserve, direct, seq) || (int)seq.size() >= depth || mc::stopped()) return; for (auto& x : A) { seq.push_back(x); rec(); seq.pop_back(); } };
		rec();
	}
}
static void tables_long(int family, int maxn)
{
	auto A = talphabet();
	for (int cnt = 0; cnt <= maxn; cnt++) for (int stride : { 1, 8, 18, 3 }) {
		if (!mc::begin(mc::sfmt("C table of %s with %d keys of stride %d, then every pair of operations", family == 3 ? "Str" : "Macro", cnt, stride))) continue;
		std::vector<MC_STEP> seq; for (int i = 0; i < cnt; i++) seq.push_back({ 0, i + 2, stride });
		for (auto& p : A) { seq.push_back(p); for (auto& q : A) { seq.push_back(q); bool ok = tcheck(family, 0, cnt & 1, seq); seq.pop_back(); if (!ok) break; } seq.pop_back(); }
	}
}
// ---- arenas of every kind, and pools
static const char* kinds_[] = { "fixed arena of 1KB", "fixed arena of 4KB", "fixed arena of 8KB", "fixed arena of 16KB", "fixed arena of 32KB", "fixed arena of 64KB", "fixed arena of 128KB", "fixed arena of 256KB", "fixed arena of 512KB", "fixed arena of 1MB", "fixed arena of 2MB", "fixed arena of 4MB", "arena over memory", "arena from an allocator", "sub-arena" };
static const char* anames[] = { "allocate", "free_all", "free the newest", "free the oldest" };
static bool acheck(int kind, std::vector<MC_STEP> const& seq)
{
	std::string got = run(5, kind, 0, 0, seq), want; int skew = 0; long total = kind < 12 ? 1024L << (kind ? kind + 1 : 0) : 1024, used = 0; bool fatal = false;
	if (got != "(fatal)") { size_t b = got.find(' '); skew = b == std::string::npos ? 0 : atoi(got.c_str() + b); }
	want = mc::sfmt("%ld %d|", total, skew);
	for (auto& s : seq) { if (s.op == 1) used = 0; if (s.op) continue;
		long pad = (s.b - (skew + used) % s.b) % s.b, size = (s.a + s.b - 1) / s.b * s.b;
		want += mc::sfmt("%ld:", total - used - pad);
		if (used + pad + size > total) { fatal = true; break; }
		want += mc::sfmt("%ld;", used + pad); used += pad + size;
	}
	if (kind >= 12) want += "|0";
	mc::state(mc::mix(kind, used)); mc::outcome(mc::mix(kind * 2 + fatal, seq.back().op));
	if (fatal ? got == "(fatal)" : got == want) { mc::trace_ok(); return true; }
	mc::violation(mc::sfmt("C %s: ", kinds_[kind]) + text(seq, anames), "size and address | what is left and where it lies, of each is\n" + got + "\ninstead of\n" + (fatal ? "(fatal)" : want));
	return false;
}
static bool pcheck(int blocks, int align, int bsize, std::vector<MC_STEP> const& seq)
{
	std::string want; int live = 0; bool fatal = false;
	for (auto& s : seq) { if (s.op == 0) { if (live == blocks) { fatal = true; break; } live++; want += "0;"; } else if (s.op == 1) live = 0; else if (live) live--; }
	want += mc::sfmt("|%ld|0|0", (long)live * bsize);
	std::string got = run(6, blocks, align, 0, seq);
	mc::state(mc::mix(mc::mix(blocks, align), live)); mc::outcome(mc::mix(live * 2 + fatal, seq.back().op));
	if (fatal ? got == "(fatal)" : got == want) { mc::trace_ok(); return true; }
	mc::violation(mc::sfmt("C pool of %d blocks of %d bytes, alignment %d: ", blocks, bsize, align) + text(seq, anames), "misalignment of each | used | used once cleared | blocks left is\n" + got + "\ninstead of\n" + (fatal ? "(fatal)" : want));
	return false;
}
template <class F> static void histories(std::string what, std::vector<MC_STEP> const& A, int depth, F check)
{
	for (auto& p : A) {
		if (!mc::begin(what + mc::sfmt(": %s(%d,%d); then every continuation to depth %d", anames[p.op], p.a, p.b, depth))) continue;
		std::vector<MC_STEP> seq = { p };
		std::function<void()> rec = [&] { if (!check(seq) || (int)seq.size() >= depth || mc::stopped()) return; for (auto& x : A) { seq.push_back(x); rec(); seq.pop_back(); } };
		rec();
	}
}
static void arenas(bool thorough)
{
	for (int kind = 0; kind < 15; kind++) {
		int total = kind < 12 ? 1024 << (kind ? kind + 1 : 0) : 1024; std::vector<MC_STEP> A;
		for (int n : { 1, 24, total / 2, total - 16 }) for (int a : { 1, 16, 64 }) A.push_back({ 0, n, a });
		A.push_back({ 0, total, 1 }); A.push_back({ 1, 0, 0 }); A.push_back({ 2, 0, 0 });
		histories(std::string("C ") + kinds_[kind], A, total > 32768 ? 2 : total > 1024 ? 3 : thorough ? 5 : 4, [&](std::vector<MC_STEP> const& s) { return acheck(kind, s); });
	}
	for (int blocks : { 1, 2, 3, 4 }) for (int align : { 0, 8, 16, 64 }) for (int bsize : { 16, 48, 128 }) {
		int a = align ? align : 16; std::vector<MC_STEP> A = { { 0, bsize, a }, { 1, 0, 0 }, { 2, 0, 0 }, { 3, 0, 0 } };
		histories(mc::sfmt("C pool of %d blocks of %d bytes, alignment %d", blocks, bsize, align), A, thorough ? 9 : 7, [&](std::vector<MC_STEP> seq) { bool any = false; for (auto& s : seq) any = any || s.op == 0; return !any || pcheck(blocks, align, bsize, seq); });
	}
}
void explore(bool thorough)
{
	C = &libs::OTHERS[0]; int d = thorough ? 4 : 3;
	arrays(1, 0, 0, d); arrays(1, 1, 1, d); arrays(0, 3, 0, d); arrays(0, 0, 1, d); arrays(2, 2, 0, d); arrays(2, 0, 1, d);
	for (int f = 0; f < 3; f++) arrays_long(f, thorough ? 80 : 30);
	arrays_failing();
	tables(3, 0, 0, d); tables(3, 1, 1, d); tables(4, 2, 0, d); tables(4, 0, 1, d);
	tables_long(3, thorough ? 100 : 40); tables_long(4, thorough ? 100 : 20);
	arenas(thorough);
}
