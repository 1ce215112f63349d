// T01: text templates: every format of up to the bound of pieces with every set of tokens, every buffer size around the needed
// one, against a plain substitution.
#include "gram.hpp"
#include <functional>
#include <map>
#include <memory>
#pragma pop_macro("code")
#pragma pop_macro("code_str")
#pragma pop_macro("code_fmt")
#pragma pop_macro("stringize")
using namespace gen; typedef std::string S; typedef std::vector<std::pair<S, S>> Toks;
const char* mc::PROPERTY = "T01";
static void bad(S const& what) { mc::violation(mc::cur_desc, what); }
static S subst(S const& f, Toks const& t)
{
	S r; for (size_t i = 0; i < f.size();) {
		if (f[i] == '<') { size_t e = f.find('>', i); if (e != S::npos) { S nm = f.substr(i + 1, e - i - 1); const S* v = nullptr; for (auto& x : t) if (x.first == nm) v = &x.second; if (v) { r += *v; i = e + 1; continue; } } }
		r += f[i++]; }
	return r;
}
// values are views of memory of exactly their size
struct Held { std::vector<std::unique_ptr<mc::Exact>> v; std::vector<std::unique_ptr<mc::ExactZ>> n; Held(Toks const& t) { for (auto& x : t) { n.emplace_back(new mc::ExactZ(x.first)); v.emplace_back(new mc::Exact(x.second)); } } const char* k(int i) { return n[i]->p; } Str s(int i) { return v[i]->s; } };
static ssize va_call(char* b, usize n, s32 num, ...) { va_list va; va_start(va, num); ssize r = token_fmt_va(b, n, num, va); va_end(va); return r; }
static ssize call_va(char* b, usize n, Toks const& t, const char* f) { Held h(t); switch (t.size()) { case 0: return va_call(b, n, 1, f); case 1: return va_call(b, n, 2, h.k(0), h.s(0), f); case 2: return va_call(b, n, 3, h.k(0), h.s(0), h.k(1), h.s(1), f); default: return va_call(b, n, 4, h.k(0), h.s(0), h.k(1), h.s(1), h.k(2), h.s(2), f); } }
static Str call(Toks const& t, const char* f) { Held h(t); switch (t.size()) { case 0: return token_fmt_impl(1, f); case 1: return token_fmt(h.k(0), h.s(0), f); case 2: return token_fmt(h.k(0), h.s(0), h.k(1), h.s(1), f); default: return token_fmt(h.k(0), h.s(0), h.k(1), h.s(1), h.k(2), h.s(2), f); } }
static Code call_code(Toks const& t, const char* f) { Held h(t); switch (t.size()) { case 0: return untyped_str(token_fmt_impl(1, f)); case 1: return untyped_str(token_fmt(h.k(0), h.s(0), f)); case 2: return untyped_str(token_fmt(h.k(0), h.s(0), h.k(1), h.s(1), f)); default: return untyped_str(token_fmt(h.k(0), h.s(0), h.k(1), h.s(1), h.k(2), h.s(2), f)); } }
static Code call_untyped(Toks const& t, const char* f) { Held h(t); switch (t.size()) { case 1: return untyped_token_fmt(1, f, h.k(0), h.s(0)); case 2: return untyped_token_fmt(2, f, h.k(0), h.s(0), h.k(1), h.s(1)); default: return untyped_token_fmt(3, f, h.k(0), h.s(0), h.k(1), h.s(1), h.k(2), h.s(2)); } }
static const std::vector<Toks> SETS = { {}, { { "x", "1" } }, { { "x", "" } }, { { "x", "<y>" }, { "y", "<x>" } }, { { "x", "v w" }, { "xy", "<" } }, { { "y", ">" }, { "x", "x" }, { "xy", "long value" } }, { { "x", "first" }, { "x", "last" } }, { { "x<", "A" }, { "y", "" } } };
static void formats(bool th)
{
	static const std::vector<const char*> P = { "a", "<", ">", "<x>", "<y>", "<xy>", " ", "<x<>", "%d", "\n", "x" };
	std::vector<int> h; int depth = th ? 6 : 5;
	std::function<void()> rec = [&] {
		if (mc::stopped()) return;
		if (!mc::mine()) mc::skip_case(); else {
			S f; for (int k : h) f += P[k];
			if (mc::begin("format \"" + f + "\"")) {
				gram::up(); mc::ExactZ z(f);
				for (size_t t = 0; t < SETS.size(); t++) { mc::transition(); S want = subst(f, SETS[t]), got; bool fl = mc::fatal([&] { got = mc::S_(call(SETS[t], z.p)); });
					if (fl) { bad(mc::sfmt("tokens %d: a fatal failure", (int)t)); break; } if (got != want) { bad(mc::sfmt("tokens %d: ", (int)t) + got + " instead of " + want); break; } mc::trace_ok(); mc::state(mc::hash_str(want)); mc::outcome(mc::hash_str(want)); }
				gram::down(); } }
		if ((int)h.size() == depth) return;
		for (int k = 0; k < (int)P.size(); k++) { h.push_back(k); rec(); h.pop_back(); } };
	rec();
	// as code, and every size of the buffer
	h.clear(); depth = th ? 4 : 3;
	std::function<void()> rec2 = [&] {
		if (mc::stopped()) return;
		if (!mc::mine()) mc::skip_case(); else {
			S f; for (int k : h) f += P[k];
			if (mc::begin("sizes for \"" + f + "\"")) {
				gram::up(); mc::ExactZ z(f); bool ok = true;
				for (size_t t = 0; t < SETS.size() && ok; t++) { S want = subst(f, SETS[t]);
					for (size_t n = 0; n <= want.size() + 2 && ok; n++) { mc::transition(); char* b = (char*)malloc(n ? n : 1); memset(b, 0x5a, n); ssize r = -2; bool fl = mc::fatal([&] { r = call_va(b, n, SETS[t], z.p); });
						if (n < want.size()) { if (!fl && r >= 0) { bad(mc::sfmt("tokens %d, buffer of %d for %d characters: returned %d", (int)t, (int)n, (int)want.size(), (int)r)); ok = false; } }
						else if (fl || r != (ssize)want.size() || memcmp(b, want.data(), want.size())) { bad(mc::sfmt("tokens %d, buffer of %d for %d characters: returned %d", (int)t, (int)n, (int)want.size(), (int)r)); ok = false; }
						free(b); }
					// nothing of it is left for the next
					if (ok) { S g = mc::S_(token_fmt("q", Str{ "", 0 }, "<x><y><xy>")); if (g != "<x><y><xy>") { bad("tokens of an earlier call were used: " + g); ok = false; } }
					for (int form = 0; form < 2 && ok; form++) { if (form && SETS[t].empty()) continue; Code c = { nullptr }; S got; bool fl = mc::fatal([&] { c = form ? call_untyped(SETS[t], z.p) : call_code(SETS[t], z.p); if (c.ast && c != Code_Invalid) got = mc::SB_(code_to_strbuilder(c)); }); mc::transition();
						bool rej = fl || !c.ast || c == Code_Invalid;
						if (want.empty()) { if (!rej) { bad("an untyped code without content"); ok = false; } if (fl) { gram::down(); gram::up(); } }
						else if (rej || got != want || c->Type != CT_Untyped || mc::S_(c->Name) != want) { bad(mc::sfmt("%s, tokens %d: ", form ? "untyped_token_fmt" : "code_fmt", (int)t) + (rej ? "refused " + w32::std_err.substr(0, 100) : got + " instead of " + want)); ok = false; } }
					if (ok) { mc::trace_ok(); mc::state(mc::hash_str(want)); } }
				gram::down(); } }
		if ((int)h.size() == depth) return;
		for (int k = 0; k < (int)P.size(); k++) { h.push_back(k); rec2(); h.pop_back(); } };
	rec2();
}
static void lengths(bool th)
{
	for (int tail : { -300, -2, -1, 0, 1, 2, 300, 100000 }) for (int vlen : { 0, 1, 100, 70000 }) for (int form = 0; form < 3; form++) {
		int total = GEN_PRINTF_MAXLEN + tail; if (!mc::begin(mc::sfmt("a text of %d characters, %d of them of a token, %s", total, vlen, form == 0 ? "code_fmt" : form == 1 ? "untyped_token_fmt" : "untyped_fmt"))) continue;
		gram::up(); S v((size_t)vlen, 'v'), body((size_t)(total - vlen), 'b'); Code c = { nullptr }; S got; mc::transition();
		S f = body.substr(0, body.size() / 2) + (form == 2 ? "%S" : "<x>") + body.substr(body.size() / 2), want = body.substr(0, body.size() / 2) + v + body.substr(body.size() / 2); Str vs = { v.data(), vlen };
		bool fl = mc::fatal([&] { c = form == 0 ? code_fmt("x", vs, f.c_str()) : form == 1 ? untyped_token_fmt(1, f.c_str(), "x", vs) : untyped_fmt(f.c_str(), vs); if (c.ast && c != Code_Invalid) got = mc::SB_(code_to_strbuilder(c)); });
		bool rej = fl || !c.ast || c == Code_Invalid;
		if (total < GEN_PRINTF_MAXLEN - (form == 2) && rej) bad("refused"); else if (!rej && got != want) bad(mc::sfmt("%d characters", (int)got.size())); else mc::trace_ok();
		mc::state(mc::mix(tail, vlen * 4 + form)); mc::outcome(rej); gram::down();
	}
}
static void many(bool)
{
	Str a = { "A", 1 }, b = { "B", 1 }, e = { "", 0 };
	const char* F = "<t0><t1><t2><t3><t4><t5><t6><t7><t8><t9><u0><u1><u2><u3><u4><u5><u6><u7><u8><u9>";
	S got, all = F;
	struct R { const char* nm; std::function<Str()> f; int n; };
	std::vector<R> rs = {
		{ "3 tokens", [&] { return token_fmt("t0", a, "t1", b, "t2", e, F); }, 3 },
		{ "5 tokens", [&] { return token_fmt("t0", a, "t1", b, "t2", e, "t3", a, "t4", b, F); }, 5 },
		{ "10 tokens", [&] { return token_fmt("t0", a, "t1", b, "t2", e, "t3", a, "t4", b, "t5", e, "t6", a, "t7", b, "t8", e, "t9", a, F); }, 10 },
		{ "20 tokens", [&] { return token_fmt("t0", a, "t1", b, "t2", e, "t3", a, "t4", b, "t5", e, "t6", a, "t7", b, "t8", e, "t9", a, "u0", b, "u1", e, "u2", a, "u3", b, "u4", e, "u5", a, "u6", b, "u7", e, "u8", a, "u9", b, F); }, 20 } };
	for (auto& r : rs) { if (!mc::begin(r.nm)) continue; gram::up(); S want; for (int i = 0; i < 20; i++) want += i < r.n ? (i % 3 == 0 ? "A" : i % 3 == 1 ? "B" : "") : all.substr(i * 4, 4);
		for (int k = 0; k < 3; k++) { mc::transition(); if (mc::fatal([&] { got = mc::S_(r.f()); })) { bad("a fatal failure"); break; } if (got != want) { bad(got + " instead of " + want); break; } mc::trace_ok(); } mc::state(r.n); mc::outcome(r.n); gram::down(); }
	// as sources for the parser
	struct Pc { const char* nm; std::function<Code()> f; const char* want; }; Str n = { "Name", 4 }, t = { "A<B, int*>", 10 }, body = { "int a;\nint f();", 15 };
	std::vector<Pc> ps = {
		{ "parse_fmt struct", [&] { return (Code)parse_fmt(struct, "name", n, "body", body, "struct <name> { <body> };"); }, "struct Name { int a; int f(); };" },
		{ "parse_fmt using", [&] { return (Code)parse_fmt(using, "name", n, "type", t, "using <name> = <type>;"); }, "using Name = A<B, int*>;" },
		{ "parse_fmt function", [&] { return (Code)parse_fmt(function, "type", t, "name", n, "<type> <name>( A<int> a, <type> b ) { return a < b; }"); }, "A<B, int*> Name( A<int> a, A<B, int*> b ) { return a < b; }" },
		{ "parse_fmt global_body", [&] { return (Code)parse_fmt(global_body, "name", n, stringize( enum <name> { <name>_A, <name>_B = 2 }; typedef struct <name>_S <name>_T; )); }, "enum Name { Name_A, Name_B = 2 }; typedef struct Name_S Name_T;" } };
	for (auto& p : ps) { if (!mc::begin(p.nm)) continue; gram::up(); mc::transition(); if (mc::fatal([&] { got = mc::SB_(code_to_strbuilder(p.f())); })) bad("a fatal failure"); else if (S d = ref::diff(ref::toks(p.want), ref::toks(got)); !d.empty()) bad(d + "\n" + got); else mc::trace_ok(); mc::state(mc::hash_str(got)); gram::down(); }
}
void explore(bool thorough) { formats(thorough); lengths(thorough); many(thorough); }
