// G03: definitions, bodies and lists put together through the upfront interface give the same in the generated libraries as in the library
// they are generated from.
#include "libs.hpp"
using namespace gen;
const char* mc::PROPERTY = "G03";
static const char* FAMILIES[] = { "class", "struct", "function", "variable", "enum", "union", "namespace", "typedef", "using", "operator", "operator cast", "constructor and destructor", "template", "type", "preprocessor, comments, linkage, friends and modules", "bodies", "specifiers and parameters", "strings", "tokens", "files", "CSV", "trees", "any code by its type" };
static std::string ours(std::string s) { return libs::word(libs::word(s, "gen_Operator", "Operator"), "gen_s32", "s32"); }   // (the C library's names)
void explore(bool thorough)
{
	for (int f = 0; f < (int)(sizeof FAMILIES / sizeof *FAMILIES); f++) {
		libs::said(libs::BASE, [&] { lib_base_build(f, 0); });
		long n = lib_base_builds(f);
		for (long k = 0; k < n; k++) {
			std::string key = mc::sfmt("%s %ld", FAMILIES[f], k);
			if (!thorough && n > 2000 && mc::hash_str(key) % (n / 1000)) { mc::skip_case(); continue; }
			if (!mc::begin(key)) continue;
			std::string want = libs::said(libs::BASE, [&] { lib_base_build(f, k); }); bool ok = true;
			for (auto& l : libs::OTHERS) {
				std::string got = ours(libs::said(l, [&] { l.build(f, k); }));
				if (got != want) { mc::violation(mc::cur_desc, std::string(l.name) + " differs\n" + libs::apart(want, got)); ok = false; }
			}
			if (ok) { mc::trace_ok(); mc::state(mc::hash_str(want)); mc::outcome(mc::hash_str(want)); }
		}
	}
}
