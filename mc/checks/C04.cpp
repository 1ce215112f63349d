// C04: the growable string and the length-carrying string against std::string.
#include "mc.hpp"
using namespace gen;
const char* mc::PROPERTY = "C04";
typedef std::string T;

static const char* WS = " \t\r\n\v\f";
static T ref_trim(T s, const char* cut) { size_t a = s.find_first_not_of(cut); if (a == T::npos) return ""; size_t b = s.find_last_not_of(cut); return s.substr(a, b - a + 1); }
static T ref_strip(T s) { T o; for (char c : s) if (!strchr(WS, c)) o += c; return o; }
static T ref_vis(T s) { T o; for (char c : s) switch (c) { case ' ': o += "·"; break; case '\t': o += "→"; break; case '\n': o += "↵"; break; case '\r': o += "⏎"; break; case '\v': o += "⇕"; break; case '\f': o += "⌂"; break; default: o += c; } return o; }

static const char* opn[] = { "append_char(a)", "append_char(space)", "append_c_str(b-tab)", "append_str(5)", "append_c_str_len(2 of 4)", "append_string(3)", "append_fmt", "append_str(40)", "append_str(empty)", "append_c_str(null)", "trim( a)", "trim_space", "strip_space", "clear", "make_space_for(7)", "make_space_for(100)", "duplicate", "visualize", "append_fmt(%SB of another)", "append_c_str(empty)" };
enum { NOPS = 20 };
static const T S40 = " 0123456789abcdefghijklmnopqrstuvwxyzABCD";

static bool same(StrBuilder s, T const& m, T& why)
{
	if (s.Data == nullptr) { why = "no string"; return false; }
	StrBuilderHeader* h = strbuilder_get_header(s);
	if ((size_t)strbuilder_length(s) != m.size() || (size_t)s.length() != m.size()) { why = mc::sfmt("length %ld, expected %zu", (long)strbuilder_length(s), m.size()); return false; }
	if (memcmp(s.Data, m.data(), m.size())) { why = "content '" + T(s.Data, m.size()) + "', expected '" + m + "'"; return false; }
	if (s.Data[m.size()] != 0) { why = "not terminated"; return false; }
	if (h->Capacity < h->Length || strbuilder_capacity(s) - strbuilder_length(s) != strbuilder_avail_space(s)) { why = "capacity below the length"; return false; }
	if (h->Allocator.Proc != &mc::temp_proc) { why = "lost its allocator"; return false; }
	if (m.size() && *strbuilder_back(s) != m.back()) { why = "back() is not the last character"; return false; }
	Str v = strbuilder_to_str(s); if (v.Ptr != s.Data || (size_t)v.Len != m.size()) { why = "to_str differs"; return false; }
	size_t n = 0; for (char* c = begin(s); c != end(s); ++c, ++n) if (n >= m.size() || *c != m[n]) { why = "iteration differs"; return false; }
	if (n != m.size()) { why = "iteration is short"; return false; }
	// the whole capacity and its terminator must be writable memory of its own
	for (ssize i = h->Length; i <= h->Capacity; i++) { volatile char* p = s.Data + i; char c = *p; *p = c; }
	return true;
}
// mem: use the member function
static bool apply(StrBuilder& s, T& m, int op, bool mem, T& why)
{
	bool r = true, want = true;
	switch (op) {
	case 0: r = mem ? s.append('a') : strbuilder_append_char(&s, 'a'); m += 'a'; break;
	case 1: r = mem ? s.append(' ') : strbuilder_append_char(&s, ' '); m += ' '; break;
	case 2: { mc::ExactZ z("b\t"); r = mem ? s.append((char const*)z.p) : strbuilder_append_c_str(&s, z.p); m += "b\t"; break; }
	case 3: { mc::Exact z("xy a\n"); r = mem ? s.append(z.s) : strbuilder_append_str(&s, z.s); m += "xy a\n"; break; }
	case 4: { mc::Exact z("pqrs"); r = mem ? s.append(z.p, 2) : strbuilder_append_c_str_len(&s, z.p, 2); m += "pq"; break; }
	case 5: { StrBuilder o = strbuilder_make_c_str(mc::temp(), "o k"); r = mem ? s.append(o) : strbuilder_append_string(&s, o); if (mc::SB_(o) != "o k") { why = "source changed"; return false; } strbuilder_free(&o); m += "o k"; break; }
	case 6: { mc::Exact z("zz"); r = mem ? s.append_fmt("<%d,%S,%s,%c>", -7, z.s, "cs", 'q') : strbuilder_append_fmt(&s, "<%d,%S,%s,%c>", -7, z.s, "cs", 'q'); m += "<-7,zz,cs,q>"; break; }
	case 7: { mc::Exact z(S40); r = mem ? s.append(z.s) : strbuilder_append_str(&s, z.s); m += S40; break; }
	case 8: { mc::Exact z(""); r = mem ? s.append(z.s) : strbuilder_append_str(&s, z.s); break; }
	case 9: { want = false; r = mem ? s.append((char const*)nullptr) : strbuilder_append_c_str(&s, nullptr); break; }
	case 10: if (mem) s.trim(" a"); else strbuilder_trim(s, " a"); m = ref_trim(m, " a"); break;
	case 11: if (mem) s.trim_space(); else strbuilder_trim_space(s); m = ref_trim(m, WS); break;
	case 12: if (mem) s.strip_space(); else strbuilder_strip_space(s); m = ref_strip(m); break;
	case 13: if (mem) s.clear(); else strbuilder_clear(s); m.clear(); break;
	case 14: case 15: { int n = op == 14 ? 7 : 100; r = mem ? s.make_space_for("", n) : strbuilder_make_space_for(&s, "", n); if (strbuilder_avail_space(s) < n) { why = "no space made"; return false; } break; }
	case 16: { StrBuilder d = mem ? s.duplicate(mc::temp()) : strbuilder_duplicate(s, mc::temp()); if (d.Data == s.Data) { why = "duplicate shares the storage"; return false; }
		if (!strbuilder_are_equal(d, s) || !d.is_equal(s)) { why = "duplicate is not equal"; return false; } strbuilder_free(&s); s = d; break; }
	case 17: { StrBuilder v = mem ? s.visualize_whitespace() : strbuilder_visualize_whitespace(s); if (mc::SB_(v) != ref_vis(m)) { why = "visualize_whitespace: '" + mc::SB_(v) + "'"; return false; } strbuilder_free(&v);
		Str x = strbuilder_to_str(s).visualize_whitespace(mc::temp()); if (mc::S_(x) != ref_vis(m)) { why = "Str visualize_whitespace"; return false; } StrBuilder xv = { (char*)x.Ptr }; strbuilder_free(&xv); break; }
	case 18: { StrBuilder o = strbuilder_make_c_str(mc::temp(), "body"); r = mem ? s.append_fmt("{%SB}", o) : strbuilder_append_fmt(&s, "{%SB}", o); strbuilder_free(&o); m += "{body}"; break; }
	case 19: r = mem ? s.append("") : strbuilder_append_c_str(&s, ""); break;
	}
	if (r != want) { why = mc::sfmt("returned %d, expected %d", r, want); return false; }
	return true;
}
static StrBuilder start(int k, T& m)
{
	switch (k) {
	case 0: m = ""; return strbuilder_make_c_str(mc::temp(), "");
	case 1: m = " ab "; return strbuilder_make_c_str(mc::temp(), " ab ");
	case 2: m = ""; return strbuilder_make_reserve(mc::temp(), 0);
	case 3: m = ""; return strbuilder_make_reserve(mc::temp(), 3);
	case 4: { mc::Exact z("a b"); m = "a b"; return strbuilder_make_str(mc::temp(), z.s); }
	case 5: { mc::Exact z("a b"); m = "a "; return strbuilder_make_length(mc::temp(), z.p, 2); }
	case 6: { char buf[32]; m = "n=12;"; return strbuilder_fmt(mc::temp(), buf, sizeof buf, "n=%d;", 12); }
	case 7: { m = "n=12;"; return strbuilder_fmt_buf(mc::temp(), "n=%d;", 12); }
	case 8: { char buf[4]; m = "n=12;"; return strbuilder_fmt(mc::temp(), buf, sizeof buf, "n=%d;", 12); }
	case 9: { m = "  "; return StrBuilder::make(mc::temp(), "  "); }
	case 10: { char buf[32]; m = "x1"; return StrBuilder::fmt(mc::temp(), buf, sizeof buf, "x%d", 1); }
	case 11: { m = "x1"; return StrBuilder::fmt_buf(mc::temp(), "x%d", 1); }
	case 12: { m = ""; return strbuilder_make_c_str(mc::temp(), nullptr); }
	}
	return { nullptr };
}
static void sequences(int depth)
{
	for (int k = 0; k < 13; k++) for (int mem = 0; mem < 2; mem++) for (int p = 0; p < NOPS; p++) {
		int D = (k == 0 || k == 4) && !mem ? depth : depth - 1;
		if (!mc::begin(mc::sfmt("builder start %d%s: %s; then every continuation to depth %d", k, mem ? " members" : "", opn[p], D))) continue;
		std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& seq) {
			mc::t_free_all(); T m, why; StrBuilder s = start(k, m); bool ok = same(s, m, why);
			for (size_t i = 0; i < seq.size() && ok; i++) { ok = apply(s, m, seq[i], mem, why) && same(s, m, why); mc::transition(); }
			if (ok) { mc::state(mc::mix(mc::hash_str(m), strbuilder_capacity(s))); mc::outcome(mc::mix(m.size(), strbuilder_capacity(s))); mc::trace_ok();
				strbuilder_free(&s); if (mc::t_live) { ok = false; why = mc::sfmt("%ld blocks live after free", mc::t_live); } }
			if (!ok) { T d = mc::sfmt("builder start %d%s:", k, mem ? " members" : ""); for (int i : seq) d += T(" ") + opn[i] + ";"; mc::violation(d, why); return; }
			if ((int)seq.size() < D) for (int i = 0; i < NOPS; i++) { seq.push_back(i); rec(seq); seq.pop_back(); if (mc::stopped()) return; }
		};
		std::vector<int> seq = {p}; rec(seq);
	}
}
static void failures()
{
	for (int k = 0; k < 13; k++) for (int p = 0; p < NOPS; p++) {
		if (p == 16 || p == 17 || p == 5 || p == 18) continue;
		if (!mc::begin(mc::sfmt("builder start %d: %s with its allocation failing", k, opn[p]))) continue;
		mc::t_free_all(); mc::t_fail_at = -1; T m, why; StrBuilder s = start(k, m); T before = m;
		mc::t_total = 0; mc::t_fail_at = 0; bool ok = apply(s, m, p, false, why); bool hit = mc::t_total > 0; mc::t_fail_at = -1;
		if (hit) { if (ok) { mc::violation(mc::cur_desc, "reported success although the allocation failed"); continue; } ok = same(s, before, why); }
		else ok = ok && same(s, m, why);
		mc::transition(); mc::trace_ok();
		if (!ok) mc::violation(mc::cur_desc, why);
	}
}
static void long_text(bool thorough)
{
	// text around and above the print buffer's size is neither cut nor dropped
	const long M = GEN_PRINTF_MAXLEN;
	for (long n : {M - 40, M - 3, M - 2, M - 1, M, M + 1, 2 * M, 4 * M - 1, 4 * M, 4 * M + 1}) for (int form = 0; form < 6; form++) {
		if (!mc::begin(mc::sfmt("formatted append of %ld characters, form %d", n, form))) continue;
		mc::t_free_all(); T big((size_t)n, 'k'); for (long i = 0; i < n; i += 7) big[i] = 'a' + i % 23; mc::ExactZ z(big); T m = "<" + big + ">"; T got; StrBuilder s = strbuilder_make_c_str(mc::temp(), ""); StrBuilder o = strbuilder_make_str(mc::temp(), z.s);
		switch (form) {
		case 0: strbuilder_append_fmt(&s, "<%S>", z.s); break;
		case 1: strbuilder_append_fmt(&s, "<%SB>", o); break;
		case 2: strbuilder_append_fmt(&s, "<%s>", z.p); break;
		case 3: s.append_fmt("<%S>", z.s); break;
		case 4: s = strbuilder_fmt_buf(mc::temp(), "<%S>", z.s); break;
		case 5: { char b[16]; s = strbuilder_fmt(mc::temp(), b, sizeof b, "<%s>", z.p); break; }
		}
		mc::transition(); mc::trace_ok();
		if (mc::SB_(s) != m) mc::violation(mc::cur_desc, mc::sfmt("result has %ld characters, expected %zu", (long)strbuilder_length(s), m.size()));
	}
}
static void pairs(bool thorough)
{
	std::vector<T> all = {""}; const char al[] = "ab ";
	size_t b = 0; for (int l = 1; l <= (thorough ? 5 : 4); l++) { size_t e = all.size(); for (size_t i = b; i < e; i++) for (char c : {al[0], al[1], al[2]}) all.push_back(all[i] + c); b = e; }
	for (auto& x : all) {
		if (!mc::begin("string comparisons of '" + x + "' with every string up to the bound")) continue;
		for (auto& y : all) {
			mc::t_free_all(); mc::Exact a(x), c(y); StrBuilder sa = strbuilder_make_str(mc::temp(), a.s), sc = strbuilder_make_str(mc::temp(), c.s);
			bool eq = x == y, has = x.find(y) != T::npos, st = x.compare(0, y.size(), y) == 0;
			mc::transition(14);
			auto chk = [&](bool g, bool w, const char* f) { if (g != w) mc::violation(mc::sfmt("%s('%s','%s')", f, x.c_str(), y.c_str()), mc::sfmt("%d, expected %d", g, w)); };
			chk(str_are_equal(a.s, c.s), eq, "str_are_equal"); chk(a.s.is_equal(c.s), eq, "Str::is_equal");
			chk(str_contains(a.s, c.s), has, "str_contains"); chk(a.s.contains(c.s), has, "Str::contains");
			chk(str_starts_with(a.s, c.s), st, "str_starts_with"); chk(a.s.starts_with(c.s), st, "Str::starts_with");
			chk(strbuilder_are_equal(sa, sc), eq, "strbuilder_are_equal"); chk(strbuilder_are_equal_str(sa, c.s), eq, "strbuilder_are_equal_str"); chk(sa.is_equal(sc), eq, "StrBuilder::is_equal");
			chk(strbuilder_contains_str(sa, c.s), has, "strbuilder_contains_str"); chk(strbuilder_contains_string(sa, sc), has, "strbuilder_contains_string"); chk(sa.contains(sc), has, "StrBuilder::contains");
			chk(strbuilder_starts_with_str(sa, c.s), st, "strbuilder_starts_with_str"); chk(strbuilder_starts_with_string(sa, sc), st, "strbuilder_starts_with_string"); chk(sa.starts_with(sc), st, "StrBuilder::starts_with");
			// join
			mc::ExactZ p0(x), p1(y); char const* parts[] = { p0.p, p1.p, p0.p };
			for (int n = 0; n <= 3; n++) for (const char* glue : {"", ",", ", "}) { StrBuilder j = strbuilder_join(mc::temp(), parts, n, glue); T w; for (int i = 0; i < n; i++) { if (i) w += glue; w += i == 1 ? y : x; } if (mc::SB_(j) != w) mc::violation(mc::sfmt("join(%d,'%s') of '%s','%s'", n, glue, x.c_str(), y.c_str()), "'" + mc::SB_(j) + "', expected '" + w + "'"); }
		}
		mc::Exact a(x); Str d = str_duplicate(a.s, mc::temp()); if (mc::S_(d) != x || (d.Ptr == a.s.Ptr && x.size())) mc::violation("str_duplicate('" + x + "')", "'" + mc::S_(d) + "'");
		mc::ExactZ z(x); Str t = to_str_from_c_str(z.p); if (mc::S_(t) != x) mc::violation("to_str_from_c_str('" + x + "')", "differs");
		mc::state(mc::hash_str(x)); mc::trace_ok();
	}
}
void explore(bool thorough)
{
	sequences(thorough ? 6 : 5); failures(); long_text(thorough); pairs(thorough);
}
