// G01: the libraries gencpp generates from itself (C11, single header, segmented, Unreal) parse, serialize, copy, compare and describe
// every declaration as the library they are generated from does.
#include "libs.hpp"
using namespace gen;
const char* mc::PROPERTY = "G01";
static int own(const char* family, std::string const& d)
{
	static const struct { const char *f; int w; } T[] = { { "class", 1 }, { "struct", 2 }, { "union", 3 }, { "enum", 4 }, { "constructor", 5 }, { "destructor", 6 }, { "friend", 7 }, { "function", 8 }, { "namespace", 9 }, { "operator", 10 }, { "cast", 11 }, { "template", 12 }, { "typedef", 13 }, { "using", 14 }, { "variable", 15 }, { "extern", 16 }, { "export", 17 }, { "#define", 18 } };
	for (auto& t : T) if (d.compare(0, strlen(t.f), t.f) == 0) return t.w;
	for (auto& t : T) if (strstr(family, t.f)) return t.w;
	return d.find('(') != std::string::npos ? 8 : 15;
}
// The C library's own macros have its prefix (gen_forceinline, ...) and Unreal's is FORCEINLINE: each reads and says its own name.
static const char* const MACROS[] = { "global", "internal", "local_persist", "forceinline", "neverinline" };
static bool is_c(libs::Lib const& l) { return !strcmp(l.name, "C library"); }
static bool is_ue(libs::Lib const& l) { return !strcmp(l.name, "Unreal library"); }
static std::string theirs(libs::Lib const& l, std::string s)
{
	if (is_ue(l)) return libs::with(s, "forceinline", "FORCEINLINE");
	if (is_c(l)) for (auto m : MACROS) s = libs::word(s, m, (std::string("gen_") + m).c_str());
	return s;
}
static std::string ours(libs::Lib const& l, std::string s)
{
	if (is_ue(l)) return libs::with(s, "FORCEINLINE", "forceinline");
	if (is_c(l)) { for (auto m : MACROS) s = libs::word(s, (std::string("gen_") + m).c_str(), m); s = libs::word(s, "gen_Operator", "Operator"); }
	return s;
}
static bool all;
static void one(const char* family, gram::Scope const& sc, std::string const& decl)
{
	std::string key = std::string(family) + " in " + sc.name + ": " + decl;
	bool global = !strcmp(sc.name, "global");
	if (!all && mc::hash_str(key) % 5) { mc::skip_case(); return; }
	if (!mc::begin(key)) return;
	std::string src = sc.pre + decl + sc.post; int w = own(family, decl);
	bool spec = src.find("GEN_API") != std::string::npos || src.find("restrict") != std::string::npos;
	std::string want = libs::said(libs::BASE, [&] { lib_base_parse(0, src.c_str(), src.size()); }), want1;
	if (global || !strcmp(sc.name, "class")) want1 = libs::said(libs::BASE, [&] { lib_base_parse(w, decl.c_str(), decl.size()); });
	bool ok = true;
	for (auto& l : libs::OTHERS) {
		if (is_ue(l) && spec) { mc::count(0); continue; }   // (it knows other attributes and no restrict)
		auto run = [&](int which, std::string s) { s = theirs(l, s); return ours(l, libs::said(l, [&] { l.parse(which, s.c_str(), s.size()); })); };
		std::string got = run(0, src);
		if (got != want) { mc::violation(mc::cur_desc, std::string(l.name) + " differs\n" + libs::apart(want, got)); ok = false; }
		if (want1.empty()) continue;
		got = run(w, decl);
		if (got != want1) { mc::violation(mc::cur_desc, std::string(l.name) + mc::sfmt(" differs, parsed alone (%d)\n", w) + libs::apart(want1, got)); ok = false; }
	}
	if (ok) { mc::trace_ok(); mc::state(mc::hash_str(want)); mc::outcome(mc::hash_str(want)); }
}
void explore(bool thorough) { all = thorough; mc::counter_names[0] = "not for the Unreal library"; gram::everything(false, one); gram::specifiers([&](bool few) { all = thorough || few; }, one); }
