// F02: what a builder generates is what gets into its file, or the failure is reported: every history of builder operations up to
// the depth bound, and every failing, short or torn call to the system in each, on the in-memory file system.
#include "kinds.hpp"
using namespace gen; using namespace kinds;
const char* mc::PROPERTY = "F02";
static void bad(S const& w) { mc::violation(mc::cur_desc, w); }
static const char* OPS[] = { "print a variable", "print a function", "print a body", "print_fmt", "print_fmt with a view", "pad 0", "pad 1", "pad 3", "print long", "print one again" };
static const int NOPS = sizeof OPS / sizeof *OPS;
static const char* MODE[] = { "fails", "is short", "is torn and fails" };
static Str hold(S const& s) { return cache_str(Str{ s.data(), (ssize)s.size() }); }
// fault < 0: none; returns the number of calls that can fail
static long history(std::vector<int> const& h, bool members, bool exists, long fault, int mode, int initsize)
{
	w32::reset(); if (exists) w32::files["out.hpp"] = "old content that is longer than what gets written by some of the histories of this check ....................";
	gram::up(); _ctx->InitSize_BuilderBuffer = initsize; S want; bool reported = false, ended = false; long live = w32::live_blocks;
	w32::fault_n = 0; w32::fault_at = fault; w32::fault_mode = mode; long n = 0;
	bool t = mc::fatal([&] {
		Builder b = members ? Builder::open("out.hpp") : builder_open("out.hpp");
		Code again = { nullptr }; S big = "// "; for (int i = 0; i < 3000; i++) big += (char)('a' + i % 26);
		auto print = [&](Code c) { want += mc::SB_(code_to_strbuilder(c)); if (members) b.print(c); else builder_print(&b, c); again = c; };
		int k = 0; for (int o : h) { k++; mc::transition(); switch (o) {
			case 0: print(K(def_variable(def_type(T("int")), hold("v" + std::to_string(k))))); break;
			case 1: { Opts_def_function p = {}; p.params = def_param(def_type(T("int")), T("a")); p.body = def_function_body(1, K(def_execution(T("x();")))); print(K(def_function(hold("f" + std::to_string(k)), p))); } break;
			case 2: { Code v[2] = { K(def_variable(def_type(T("int")), T("x"))), K(def_comment(T("c"))) }; print(K(def_global_body_arr(2, v))); } break;
			case 3: want += "n" + std::to_string(k) + "\n"; if (members) b.print_fmt("n%d\n", k); else builder_print_fmt(&b, "n%d\n", k); break;
			case 4: want += "[view]"; if (members) b.print_fmt("[%S]", T("view")); else builder_print_fmt(&b, "[%S]", T("view")); break;
			case 5: case 6: case 7: { int p = o == 5 ? 0 : o == 6 ? 1 : 3; want += S((size_t)p, '\n'); if (members) b.pad_lines(p); else builder_pad_lines(&b, p); } break;
			case 8: print(untyped_str(hold(big))); break;
			case 9: if (again.ast) print(again); break; } }
		if (w32::files["out.hpp"] != "" && fault < 0) bad("something was written before the end");
		if (members) b.write(); else builder_write(&b); ended = true; });
	n = w32::fault_n; bool hit = fault >= 0 && fault < n; w32::fault_at = -1; reported = t || !ended; S out = w32::files["out.hpp"];
	if (!hit && reported) bad("failed without a reason: " + w32::std_err.substr(0, 200));
	else if (!reported && out != want) bad(S(hit ? "a failed call was not reported" : "other text was written") + ", the file holds " + mc::esc(out.substr(0, 300)) + " instead of " + mc::esc(want.substr(0, 300)));
	else if (!reported && w32::open_handles() != 0) bad("the file stayed open");
	else { mc::trace_ok(); mc::state(mc::hash_str(want, (u64)hit * 4 + mode)); mc::outcome(mc::hash_str(out)); } if (reported) mc::count(0);
	gram::down(); w32::std_err.clear(); w32::std_out.clear(); return n;
}
static void builders(bool th)
{
	int depth = th ? 4 : 3; std::vector<int> h; std::function<void(int)> rec = [&](int left) {
		if (mc::stopped()) return;
		for (int v = 0; v < 4; v++) { S key = S(v & 1 ? "members, " : "") + (v & 2 ? "over a file" : "new file"); for (int o : h) { key += ", "; key += OPS[o]; }
			for (long f = -1; f < 3; f++) for (int m = 0; m < (f < 0 ? 1 : 3); m++) { S k = key + (f < 0 ? S() : mc::sfmt(": call %ld %s", f, MODE[m])); if (mc::begin(k)) history(h, v & 1, v & 2, f, m, v == 0 ? 2 : v == 1 ? 64 : 65536); } }
		if (left) for (int o = 0; o < NOPS; o++) { h.push_back(o); rec(left - 1); h.pop_back(); } };
	rec(depth);
	// two builders at once
	for (int order = 0; order < 8; order++) for (long f = -1; f < 4; f++) for (int m = 0; m < (f < 0 ? 1 : 3); m++) {
		S k = mc::sfmt("two builders, order %d", order) + (f < 0 ? S() : mc::sfmt(": call %ld %s", f, MODE[m])); if (!mc::begin(k)) continue;
		w32::reset(); gram::up(); S wa, wb; bool da = false, db = false; w32::fault_n = 0; w32::fault_at = f; w32::fault_mode = m;
		bool t = mc::fatal([&] { Builder a = builder_open("a.hpp"), b = builder_open("b.hpp"); auto pa = [&](int i) { S x = mc::sfmt("a%d;", i); wa += x; builder_print_fmt(&a, "a%d;", i); }; auto pb = [&](int i) { wb += mc::sfmt("b%d;", i); builder_print_fmt(&b, "b%d;", i); };
			for (int i = 0; i < 3; i++) if (order >> i & 1) { pa(i); pb(i); } else { pb(i); pa(i); } if (order & 1) { builder_write(&a); da = true; builder_write(&b); db = true; } else { builder_write(&b); db = true; builder_write(&a); da = true; } });
		bool hit = f >= 0 && f < w32::fault_n; w32::fault_at = -1; mc::transition();
		if (t && !hit) bad("failed without a reason"); if ((da && w32::files["a.hpp"] != wa) || (db && w32::files["b.hpp"] != wb)) bad("other text was written"); else mc::trace_ok();
		gram::down(); w32::std_out.clear(); w32::std_err.clear(); }
}
// reading: with any call failing, either what the file holds or a reported failure
static void readers()
{
	static const char* C[] = { "int a;\n", "#ifdef INTELLISENSE_DIRECTIVES\n#include \"x\"\n#endif\nint a;\nint b;\n", "// c\nstruct A { int m; };\n", "a, b\n1, 2\n", "0x1, x\n0x2, y\n" };
	static const char* HOW[] = { "scan_file", "parse_file", "file_read_contents", "file_read", "parse_csv_one_column", "parse_csv_two_columns" };
	for (size_t c = 0; c <= sizeof C / sizeof *C; c++) for (int how = 0; how < 6; how++) for (long f = -1; f < 6; f++) {
		bool csv = c == 3 || c == 4; bool missing = c == sizeof C / sizeof *C; if (!missing && how >= 4 && !csv) continue; if (!missing && (how == 0 || how == 1) && csv) continue;
		S k = S(HOW[how]) + " of " + (missing ? S("a missing file") : mc::esc(C[c])) + (f < 0 ? S() : mc::sfmt(": call %ld fails", f)); if (!mc::begin(k)) continue;
		auto get = [&](long fault, bool* fail) -> S { w32::reset(); if (!missing) w32::files["in.hpp"] = C[c]; gram::up(); w32::fault_n = 0; w32::fault_at = fault; w32::fault_mode = 0; S r; bool none = false;
			bool t = mc::fatal([&] { switch (how) {
				case 0: { Code x = scan_file("in.hpp"); if (!x.ast || x == Code_Invalid) none = true; else r = mc::SB_(code_to_strbuilder(x)); } break;
				case 1: { CodeBody x = parse_file("in.hpp"); if (!x.ast || K(x) == Code_Invalid) none = true; else r = mc::SB_(code_to_strbuilder(K(x))); } break;
				case 2: { FileContents x = file_read_contents(_ctx->Allocator_Temp, true, "in.hpp"); if (!x.data || x.size == 0) none = true; else r = S((char*)x.data, (size_t)x.size); } break;
				case 3: { FileInfo x; char b[200]; memset(b, 0, sizeof b); if (file_open(&x, "in.hpp") != EFileError_NONE) none = true; else { if (!file_read(&x, b, missing ? 1 : (ssize)strlen(C[c]))) none = true; r = b; file_close(&x); } } break;
				case 4: { CSV_Column x = parse_csv_one_column(_ctx->Allocator_Temp, "in.hpp"); if (!x.Content) none = true; else for (usize i = 0; i < array_num(x.Content); i++) r += S(x.Content[i].type == EADT_TYPE_STRING && x.Content[i].string ? x.Content[i].string : "?") + ","; } break;
				case 5: { CSV_Columns2 x = parse_csv_two_columns(_ctx->Allocator_Temp, "in.hpp"); if (!x.Col_1 || !x.Col_2) none = true; else for (usize i = 0; i < array_num(x.Col_1); i++) r += S(x.Col_1[i].type == EADT_TYPE_STRING && x.Col_1[i].string ? x.Col_1[i].string : "?") + "," + (x.Col_2[i].type == EADT_TYPE_STRING && x.Col_2[i].string ? x.Col_2[i].string : "?") + ";"; } break; } });
			w32::fault_at = -1; *fail = t || none; if (!t && w32::open_handles() != 0) bad("the file stayed open"); gram::down(); w32::std_err.clear(); w32::std_out.clear(); return r; };
		mc::transition(); bool f0, f1; S ok = get(-1, &f0), got = get(f, &f1);
		if (missing ? !f1 : f0) bad(missing ? "a missing file was read as " + mc::esc(got) : S("could not be read")); else if (!f1 && got != ok) bad("read as " + mc::esc(got) + " instead of " + mc::esc(ok)); else { mc::trace_ok(); mc::state(mc::hash_str(k)); mc::outcome(mc::hash_str(got)); } if (f1) mc::count(0);
	}
}
void explore(bool th) { mc::counter_names[0] = "reported"; readers(); builders(th); }
