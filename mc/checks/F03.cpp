// F03: scanning a file: every text of up to the bound of lines, with each line ending and with or without the last one, scanned
// from the in-memory file system and compared byte for byte with the text less its leading INTELLISENSE_DIRECTIVES block.
#include "kinds.hpp"
using namespace gen; using namespace kinds;
const char* mc::PROPERTY = "F03";
static const char* L[] = { "int a;", "", "#ifdef INTELLISENSE_DIRECTIVES", "#endif", "#include \"x.hpp\"", "# ifdef  INTELLISENSE_DIRECTIVES", "#ifdef OTHER", "  #endif // c", "#pragma once", "#ifdef", "#end", "#if INTELLISENSE_DIRECTIVES", "\tchar const* s = \"x\";" };
static const int NL = sizeof L / sizeof *L;
static S word(S const& l, S* rest) { size_t i = l.find_first_not_of(" \t"); if (i == S::npos || l[i] != '#') return ""; i = l.find_first_not_of(" \t", i + 1); if (i == S::npos) return "#"; size_t e = i; while (e < l.size() && isalpha((unsigned char)l[e])) e++; *rest = l.substr(e); return l.substr(i, e - i); }
// the text behind the first block, or all of it
static S expected(std::vector<S> const& lines, std::vector<S> const& ends, bool* cut, bool* reads_on)
{
	*cut = false; *reads_on = false; size_t g = S::npos, e = S::npos;
	for (size_t i = 0; i < lines.size() && e == S::npos; i++) { S r, w = word(lines[i], &r);
		if (g == S::npos) { if (w == "ifdef") { size_t k = r.find_first_not_of(" \t"); if (k == S::npos) *reads_on = true; else if (r.compare(k, 23, "INTELLISENSE_DIRECTIVES") == 0) g = i; } }
		else if (w == "endif") e = i; }
	S out; for (size_t i = e == S::npos ? 0 : e + 1; i < lines.size(); i++) out += lines[i] + ends[i]; *cut = e != S::npos; return out;
}
void explore(bool th)
{
	mc::counter_names[0] = "rejected"; int depth = th ? 5 : 4; std::vector<int> h;
	std::function<void(int)> rec = [&](int left) {
		if (mc::stopped()) return;
		if (!h.empty()) for (int eol = 0; eol < 3; eol++) for (int last = 0; last < 2; last++) {
			if (!mc::mine()) { mc::skip_case(); continue; }
			std::vector<S> lines, ends; S src; for (size_t i = 0; i < h.size(); i++) { lines.push_back(L[h[i]]); ends.push_back(i + 1 == h.size() && !last ? "" : eol == 0 ? "\n" : eol == 1 ? "\r\n" : i & 1 ? "\n" : "\r\n"); src += lines.back() + ends.back(); }
			if (!mc::begin("scan of " + mc::esc(src))) continue;
			bool cut, on; S want = expected(lines, ends, &cut, &on), got; bool rej = false;
			if (on) { mc::count(1); }   // `#ifdef` without a name: what it reads on to is not specified; only memory safety
			w32::reset(); w32::files["f.hpp"] = src; gram::up(); mc::transition();
			bool t = mc::fatal([&] { Code c = scan_file("f.hpp"); if (!c.ast || c == Code_Invalid) rej = true; else { if (c->Type != CT_Untyped) mc::violation(mc::cur_desc, "the code is not untyped"); got = mc::SB_(code_to_strbuilder(c)); } });
			if (t || rej) { mc::count(0); if (!want.empty() && want != "\n" && !on) mc::violation(mc::cur_desc, "refused: " + w32::std_err.substr(0, 200)); else mc::trace_ok(); }
			else if (!on && got != want && !(cut && want[0] == '\n' && got == want.substr(1))) mc::violation(mc::cur_desc, "gave " + mc::esc(got) + " instead of " + mc::esc(want));
			else if (w32::open_handles() != 0) mc::violation(mc::cur_desc, "the file stayed open"); else { mc::trace_ok(); mc::state(mc::hash_str(src)); mc::outcome(mc::hash_str(got)); }
			gram::down(); w32::std_err.clear(); w32::std_out.clear();
		}
		if (left) for (int o = 0; o < NL; o++) { h.push_back(o); rec(left - 1); h.pop_back(); } };
	mc::counter_names[1] = "incomplete directive"; rec(depth);
}
