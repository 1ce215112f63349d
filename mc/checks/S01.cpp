// S01: interned strings and registered macros: every history of caching, registering, defining, parsing and resetting up to the
// depth bound, over texts and names with equal checksums and lengths around the arenas' and the cache's limits, against maps.
#include "gram.hpp"
#include <functional>
#include <map>
using namespace gen; typedef std::string S;
const char* mc::PROPERTY = "S01";
static void bad(S const& what) { mc::violation(mc::cur_desc, what); }
static u32 crc(S const& s) { u32 c = ~0u; for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return ~c; }
// two pairs of identifiers with equal checksums
static std::vector<S> COLL;
static void collisions()
{
	std::unordered_map<u32, S> seen;
	for (u32 i = 0; COLL.size() < 4 && i < 4000000; i++) { S s; u32 v = i * 2654435761u; for (int k = 0; k < 7; k++) { s += (char)('a' + v % 26); v = v / 26 + (k == 3 ? i : 0); }
		u32 c = crc(s); auto it = seen.find(c); if (it == seen.end()) seen[c] = s; else if (it->second != s) { COLL.push_back(it->second); COLL.push_back(s); } }
	if (COLL.size() < 4) abort();
}
enum { ARENA = 256, MAXLEN = 350 };
struct Mac { int type, flags; };
struct World {
	Context c; bool fallback; std::map<S, const char*> cached; std::vector<std::pair<S, Str>> loose; std::map<S, Mac> macros;
	void up(bool fb) {
		fallback = fb; memset(&c, 0, sizeof c);
		if (!fb) c.Allocator_DyanmicContainers = c.Allocator_Pool = c.Allocator_StrCache = c.Allocator_Temp = mc::temp();
		c.InitSize_Fallback_Allocator_Bucket_Size = 1 << 14; c.CodePool_NumBlocks = 16; c.SizePer_StringArena = ARENA; c.InitSize_LexerTokens = 4; c.InitSize_CodePoolsArray = 1; c.InitSize_StringArenasArray = 1; c.Max_StrCacheLength = MAXLEN;
		gen::init(&c); fresh();
	}
	void down() { gen::deinit(&c); mc::t_free_all(); w32::live_blocks = 0; }
	void fresh() { cached.clear(); loose.clear(); macros.clear(); macros["enum_underlying"] = { MT_Expression, MF_Functional }; }
	Str put(S const& s, bool& same) {   // from memory that is gone afterwards
		char* p = (char*)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); Str r = cache_str(Str{ p, (ssize)s.size() });
		same = r.Ptr == p; memset(p, '!', s.size() ? s.size() : 1); free(p); return r;
	}
	bool cache(S const& s) {
		bool own; Str r = put(s, own);
		if (own && s.size()) { bad("the cached string is the source's memory: " + s.substr(0, 40)); return false; }
		if (r.Len != (ssize)s.size() || mc::S_(r) != s) { bad("cached \"" + s.substr(0, 40) + "\", got \"" + mc::S_(r).substr(0, 60) + "\""); return false; }
		if (r.Ptr[r.Len] != 0) { bad("a cached string is not terminated"); return false; }
		if (s.size() > MAXLEN) { loose.push_back({ s, r }); return true; }
		auto it = cached.find(s);
		if (it != cached.end()) { if (it->second != r.Ptr) { bad("cached again elsewhere: \"" + s.substr(0, 40) + "\""); return false; } return true; }
		for (auto& e : cached) if (e.second == r.Ptr) { bad("\"" + s.substr(0, 40) + "\" shares the memory of \"" + e.first.substr(0, 40) + "\""); return false; }
		cached[s] = r.Ptr; return true;
	}
	bool check(bool again) {
		for (auto& e : cached) if (memcmp(e.second, e.first.data(), e.first.size()) || e.second[e.first.size()]) { bad("a cached string changed: " + e.first.substr(0, 40)); return false; }
		for (auto& e : loose) if (mc::S_(e.second) != e.first || e.second.Ptr[e.second.Len]) { bad("a long string changed: " + e.first.substr(0, 40)); return false; }
		if (again) { auto m = cached; for (auto& e : m) if (!cache(e.first)) return false; }
		std::vector<S> q = COLL; q.push_back("V"); q.push_back("W"); q.push_back("Z"); q.push_back("enum_underlying"); q.push_back("enum_underlyin"); q.push_back("never");
		for (auto& n : q) { auto it = macros.find(n); Macro* m = lookup_macro(Str{ n.data(), (ssize)n.size() });
			if (it == macros.end()) { if (m) { bad("a macro " + n + " was found that is not registered: " + mc::S_(m->Name)); return false; } continue; }
			if (!m) { bad("the macro " + n + " is not found"); return false; }
			if (mc::S_(m->Name) != n || m->Type != it->second.type || m->Flags != it->second.flags) { bad("the macro " + n + " is found as " + mc::S_(m->Name) + mc::sfmt(" %d %d instead of %d %d", (int)m->Type, (int)m->Flags, it->second.type, it->second.flags)); return false; } }
		mc::trace_ok(); return true;
	}
};
struct Op { S name; std::function<bool(World&)> run; };
static Macro mac(S const& n, int t, int f) { Macro m; memset(&m, 0, sizeof m); m.Name = Str{ n.data(), (ssize)n.size() }; m.Type = (MacroType)t; m.Flags = (MacroFlags)f; return m; }
static S gone(S& keep) { S r = keep; return r; }
static std::vector<Op> ops()
{
	std::vector<Op> v;
	auto cache = [&](S const& nm, S const& s) { v.push_back({ "cache " + nm, [s](World& w) { return w.cache(s); } }); };
	cache("\"\"", ""); cache("a", "a"); cache("ab", "ab"); cache("X", COLL[0]); cache("X'", COLL[1]); cache("a\\0b", S("a\0b", 3)); cache("100 p", S(100, 'p')); cache("200 q", S(200, 'q')); cache("300 r", S(300, 'r')); cache("350 s", S(MAXLEN, 's')); cache("351 t", S(MAXLEN + 1, 't')); cache("900 u", S(900, 'u'));
	auto reg = [&](S const& nm, S const& n, int t, int f) { v.push_back({ "register " + nm, [n, t, f](World& w) { S tmp = n; register_macro(mac(tmp, t, f)); for (auto& c : tmp) c = '!'; w.macros[n] = { t, f }; return true; } }); };
	reg("X expression", COLL[0], MT_Expression, 0); reg("X' statement", COLL[1], MT_Statement, MF_Functional | MF_Expects_Body); reg("X typename", COLL[0], MT_Typename, MF_Functional);
	v.push_back({ "register 3: X', Y, Z", [](World& w) { S a = COLL[1], b = COLL[2], c = "Z"; register_macros(3, mac(a, MT_Expression, MF_Allow_As_Attribute), mac(b, MT_Statement, 0), mac(c, MT_Typename, 0)); a[0] = b[0] = c[0] = '!'; w.macros[COLL[1]] = { MT_Expression, MF_Allow_As_Attribute }; w.macros[COLL[2]] = { MT_Statement, 0 }; w.macros["Z"] = { MT_Typename, 0 }; return true; } });
	v.push_back({ "register array: Y', Z, X", [](World& w) { S a = COLL[3], b = "Z", c = COLL[0]; Macro m[3] = { mac(a, MT_Statement, MF_Functional), mac(b, MT_Expression, MF_Functional), mac(c, MT_Statement, MF_Allow_As_Identifier) }; register_macros(3, m); a[0] = b[0] = c[0] = '!'; memset(m, 0, sizeof m); w.macros[COLL[3]] = { MT_Statement, MF_Functional }; w.macros["Z"] = { MT_Expression, MF_Functional }; w.macros[COLL[0]] = { MT_Statement, MF_Allow_As_Identifier }; return true; } });
	v.push_back({ "def_define Y", [](World& w) { S a = COLL[2]; Opts_def_define o; memset(&o, 0, sizeof o); o.flags = (MacroFlags)MF_Allow_As_Definition; CodeDefine d = def_define(Str{ a.data(), (ssize)a.size() }, MT_Statement, o); a[0] = '!'; w.macros[COLL[2]] = { MT_Statement, MF_Allow_As_Definition }; if (mc::S_(d->Name) != COLL[2]) { bad("define of another name"); return false; } return true; } });
	v.push_back({ "def_define W, not registered", [](World& w) { Opts_def_define o; memset(&o, 0, sizeof o); o.dont_register_to_preprocess_macros = true; def_define(Str{ "W", 1 }, MT_Statement, o); return true; } });
	v.push_back({ "parse #define X' 1", [](World& w) { S s = "#define " + COLL[1] + " 1\n"; CodeBody b = parse_global_body(Str{ s.data(), (ssize)s.size() }); s.assign(s.size(), '!'); if (!w.macros.count(COLL[1])) w.macros[COLL[1]] = { MT_Expression, 0 }; if (b->NumEntries < 1 || b->Front->Type != CT_Preprocess_Define) { bad(mc::sfmt("the define was not parsed (%d): ", (int)b->NumEntries) + mc::SB_(code_to_strbuilder(b))); return false; } return true; } });
	v.push_back({ "parse #define V(a) a", [](World& w) { S s = "#define V(a) a\nint b;"; parse_global_body(Str{ s.data(), (ssize)s.size() }); s.assign(s.size(), '!'); if (!w.macros.count("V")) w.macros["V"] = { MT_Expression, MF_Functional }; return true; } });
	auto define = [&](S const& nm, S const& n, S const& rest, int fl) { v.push_back({ "parse #define " + nm + rest, [n, rest, fl](World& w) { S s = "#define " + n + rest; CodeBody b = parse_global_body(Str{ s.data(), (ssize)s.size() }); S out, want; for (char c : mc::SB_(code_to_strbuilder(b))) if (!isspace((unsigned char)c)) out += c; for (char c : s) if (!isspace((unsigned char)c)) want += c; s.assign(s.size(), '!');
		if (!w.macros.count(n)) w.macros[n] = { MT_Expression, fl }; if (out != want) { bad("the define " + want + " is written " + out); return false; } return true; } }); };
	define("V", "V", " 1", 0); define("X'", COLL[1], "(a, b) a b", MF_Functional);
	v.push_back({ "parse names", [](World& w) { S s = "int ab;\nstruct pq { int a; };"; CodeBody b = parse_global_body(Str{ s.data(), (ssize)s.size() }); s.assign(s.size(), '!');
		if (b->NumEntries != 2) { bad("two declarations were not parsed"); return false; }
		Str n1 = b->Front->Name, n2 = b->Front->Next->Name; if (mc::S_(n1) != "ab" || mc::S_(n2) != "pq") { bad("other names"); return false; }
		if (!w.cache("ab") || !w.cache("pq")) return false; if (w.cached["ab"] != n1.Ptr || w.cached["pq"] != n2.Ptr) { bad("the name of a parsed declaration is not the cached one"); return false; } return true; } });
	v.push_back({ "def names", [](World& w) { S s = "ab", t = "int"; Str st = { t.data(), 3 }; CodeTypename ty = def_type(st); CodeVar x = def_variable(ty, Str{ s.data(), 2 }); s[0] = t[0] = '!';
		if (mc::S_(x->Name) != "ab" || mc::S_(ty->Name) != "int") { bad("other names"); return false; }
		if (!w.cache("ab") || !w.cache("int")) return false; if (w.cached["ab"] != x->Name.Ptr || w.cached["int"] != ty->Name.Ptr) { bad("the name of a constructed declaration is not the cached one"); return false; } return true; } });
	v.push_back({ "reset", [](World& w) { reset(&w.c); w.fresh(); return true; } });
	return v;
}
static void histories(bool th)
{
	auto O = ops(); std::vector<int> h;
	for (int fb = 0; fb < 2; fb++) {
		std::function<void()> rec = [&] {
			if (mc::stopped()) return;
			if (!h.empty()) { if (!mc::mine()) mc::skip_case(); else {
				S key = fb ? "fallback allocator:" : "given allocators:"; for (int o : h) key += " " + O[o].name + ";";
				if (mc::begin(key)) { World w; w.up(fb); bool ok = true; size_t i = 0;
					if (mc::fatal([&] { for (; i < h.size() && ok; i++) { mc::transition(); ok = O[h[i]].run(w) && w.check(i + 1 == h.size()); } })) { bad("a fatal failure: " + w32::std_err.substr(0, 200)); }
					mc::u64 hs = fb; for (auto& e : w.macros) hs = mc::mix(hs, mc::hash_str(e.first) + e.second.type * 64 + e.second.flags); for (auto& e : w.cached) hs = mc::mix(hs, mc::hash_str(e.first)); hs = mc::mix(hs, w.c.StringArenas.num()); mc::state(hs); mc::outcome(hs); w.down(); } } }
			if ((int)h.size() == (th ? fb ? 4 : 5 : fb ? 3 : 4)) return;
			for (int o = 0; o < (int)O.size(); o++) { h.push_back(o); rec(); h.pop_back(); } };
		rec();
	}
}
// many strings, macros: across arenas and growing tables
static void many(bool th)
{
	for (int fb = 0; fb < 2; fb++) for (int len : { 1, 2, 3, 7, 8, 31, 120, 239, 240, 241, 250, 256, 300, 349, 350, 351, 352, 1000 }) for (int n : { 1, 2, 3, 10, 60, th ? 3000 : 400 }) {
		if (!mc::begin(mc::sfmt("%d strings of length %d, %s allocators", n, len, fb ? "fallback" : "given"))) continue;
		World w; w.up(fb);
		if (mc::fatal([&] { for (int i = 0; i < n; i++) { S s((size_t)len, 'k'); int v = i; for (int k = len - 1; k >= 0 && v; k--) { s[k] = (char)('!' + v % 80); v /= 80; } mc::transition(); if (!w.cache(s)) return; } w.check(true); })) bad("a fatal failure: " + w32::std_err.substr(0, 200));
		mc::state(mc::mix(len, n)); mc::outcome(w.c.StringArenas.num()); w.down();
	}
	for (int fb = 0; fb < 2; fb++) for (int n : { 1, 2, 5, 16, 17, 64, 65, 200, th ? 2000 : 500 }) {
		if (!mc::begin(mc::sfmt("%d macros, %s allocators", n, fb ? "fallback" : "given"))) continue;
		World w; w.up(fb); bool ok = true;
		if (mc::fatal([&] { for (int i = 0; i < n && ok; i++) { S s = mc::sfmt("MACRO_%d", i); mc::transition(); register_macro(mac(s, i % 3, i % 7)); s.assign(s.size(), '!'); 
			for (int j = 0; j <= i && ok; j += (i < 40 ? 1 : 37)) { S q = mc::sfmt("MACRO_%d", j); Macro* m = lookup_macro(Str{ q.data(), (ssize)q.size() }); if (!m || mc::S_(m->Name) != q || m->Type != j % 3 || m->Flags != j % 7) { bad("the macro " + q + " is not found as registered"); ok = false; } } }
			for (int j = 0; j < n && ok; j++) { S q = mc::sfmt("MACRO_%d", j); Macro* m = lookup_macro(Str{ q.data(), (ssize)q.size() }); if (!m || mc::S_(m->Name) != q || m->Type != j % 3) { bad("the macro " + q + " is not found as registered"); ok = false; } } })) bad("a fatal failure: " + w32::std_err.substr(0, 200));
		if (ok) mc::trace_ok(); mc::state(n * 2 + fb); mc::outcome(n); w.down();
	}
}
void explore(bool thorough) { collisions(); histories(thorough); many(thorough); }
