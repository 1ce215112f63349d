// V01: tables of comma separated values: every table of cells from the listed set in every notation, and every short text, through
// the real reader and writer.
#include "mc.hpp"
using namespace gen;
const char* mc::PROPERTY = "V01";
typedef std::string S;
static void bad(S const& w) { mc::violation(mc::cur_desc, w); }
struct Cell { S text; bool num; long long n; bool operator==(Cell const& o) const { return num == o.num && (num ? n == o.n : text == o.text); } };
typedef std::vector<std::vector<Cell>> Cols;   // by column
static S show(Cols const& c) { S r; for (auto& k : c) { r += "("; for (auto& x : k) r += (x.num ? mc::sfmt("#%lld", x.n) : "'" + mc::esc(x.text) + "'") + " "; r += ")"; } return r; }
static bool is_hex(S const& t) { if (t.size() < 3 || t[0] != '0' || (t[1] != 'x' && t[1] != 'X')) return false; for (size_t i = 2; i < t.size(); i++) if (!isxdigit((unsigned char)t[i])) return false; return t.size() <= 18; }
static bool read_table(CSV_Object* root, Cols& c, std::vector<S>* names)   // false: not a table
{
	c.clear(); if (names) names->clear(); if (!root->nodes) return false; size_t rows = 0;
	for (usize i = 0; i < array_num(root->nodes); i++) { CSV_Object* col = &root->nodes[i]; if (col->type != EADT_TYPE_ARRAY || col->parent != root) return false; std::vector<Cell> v;
		for (usize r = 0; r < array_num(col->nodes); r++) { CSV_Object* n = &col->nodes[r]; if (n->parent != col) return false; if (n->type == EADT_TYPE_STRING) { if (!n->string) return false; v.push_back({ n->string, false, 0 }); } else if (n->type == EADT_TYPE_INTEGER) v.push_back({ "", true, n->integer }); else return false; }
		if (i && v.size() != rows) return false; rows = v.size(); c.push_back(v); if (names) names->push_back(col->name ? col->name : ""); }
	return true;
}
static u8 parse(CSV_Object* o, mc::ExactZ& t, bool header, char delim) { return delim == ',' && t.s.Len % 2 ? csv_parse(o, t.p, heap(), header) : csv_parse_delimiter(o, t.p, heap(), header, delim); }
// writes the parsed table and reads it back
static bool again(CSV_Object* o, Cols const& want, std::vector<S> const& names, bool header, char delim)
{
	S out; bool file = (want.size() + want[0].size()) & 1;
	if (file) { w32::reset(); FileInfo f; if (file_open_mode(&f, EFileMode_WRITE, "t.csv") != EFileError_NONE) { bad("no file"); return false; } if (delim == ',') csv_write(&f, o); else csv_write_delimiter(&f, o, delim); file_close(&f); out = w32::files["t.csv"]; }
	else { StrBuilder s = delim == ',' ? csv_write_string(heap(), o) : csv_write_strbuilder_delimiter(heap(), o, delim); out = mc::SB_(s); strbuilder_free(&s); }
	mc::ExactZ t(out); CSV_Object p; u8 e = parse(&p, t, header, delim); Cols c; std::vector<S> nm; bool ok = e == 0 && read_table(&p, c, &nm);
	if (!ok || c != want || (header && nm != names)) { bad("written as " + mc::esc(out) + " which reads as " + (ok ? show(c) : mc::sfmt("error %d", e)) + " instead of " + show(want)); csv_free(&p); return false; }
	csv_free(&p); mc::trace_ok(); return true;
}
static void tables(bool th)
{
	static const char* CELLS[] = { "", "a", "b c", "x,y", "q\"r", "l\nm", "\"", "0x1F", "12", "\"\"", ";\t", "0xZ", "a\"\"\"b", "0x0", " s ", "0xfedcba9876543210" };
	static const char DELIM[] = { ',', ';', '\t', '|' };
	struct Shape { int r, c, n; }; std::vector<Shape> shapes = { { 1, 1, 16 }, { 1, 2, 16 }, { 2, 1, 16 }, { 2, 2, th ? 12 : 8 }, { 1, 3, th ? 16 : 10 }, { 3, 1, th ? 16 : 10 }, { 3, 2, th ? 5 : 3 } };
	for (auto& sh : shapes) { int k = sh.r * sh.c; std::vector<int> ix(k, 0);
		for (;;) {
			for (int style = 0; style < 64; style++) {   // bits: always quoted, spaces around, crlf, last row end, header; delimiter by the rest
				bool quote = style & 1, sp = style & 2, crlf = style & 4, last = style & 8, header = style & 16; if (sh.c * sh.r > 3 && (style & 32)) continue; char delim = DELIM[style & 32 ? 1 + (style >> 1) % 3 : 0]; if (header && sh.r < 2) continue;
				if (!mc::mine()) { mc::skip_case(); continue; }
				S src; Cols want(sh.c); std::vector<S> names; bool bare_blank = false;
				for (int r = 0; r < sh.r; r++) { for (int c = 0; c < sh.c; c++) { S v = CELLS[ix[r * sh.c + c]]; bool q = quote || v.find_first_of("\"\n\r") != S::npos || v.find(delim) != S::npos || (!v.empty() && (isspace((unsigned char)v[0]) || isspace((unsigned char)v.back())));
						if (v.empty() && !q && sh.c == 1) bare_blank = true; S w = v; if (q) { w = "\""; for (char ch : v) { w += ch; if (ch == '"') w += ch; } w += '"'; }
						if (header && r == 0) names.push_back(v); else want[c].push_back(!q && is_hex(v) ? Cell{ "", true, (long long)strtoull(v.c_str(), 0, 16) } : Cell{ v, false, 0 });
						if (sp && !(delim == '\t')) w = " " + w + " "; src += w; if (c + 1 < sh.c) src += delim; }
					if (r + 1 < sh.r || last) src += crlf ? "\r\n" : "\n"; }
				if (!mc::begin(mc::sfmt("table with '%c'%s: ", delim == '\t' ? 't' : delim, header ? " and header" : "") + mc::esc(src))) continue;
				if (bare_blank) { mc::count(0); continue; }
				w32::reset(); long live = w32::live_blocks; { mc::ExactZ t(src); CSV_Object o; u8 e = 255; if (mc::fatal([&] { e = parse(&o, t, header, delim); })) { bad("a fatal failure"); continue; } mc::transition(); Cols c; std::vector<S> nm;
				bool ok = e == 0 && read_table(&o, c, &nm);
				if (!ok) bad(mc::sfmt("not read, error %d: ", e) + show(c)); else if (c != want) bad("reads as " + show(c) + " instead of " + show(want)); else if (header && nm != names) bad("has other column names");
				else { mc::trace_ok(); mc::state(mc::hash_str(show(c), header)); again(&o, want, names, header, delim); }
				csv_free(&o); } if (w32::live_blocks != live) bad("memory stayed in use");
			}
			int i = k - 1; for (; i >= 0; i--) { if (++ix[i] < sh.n) break; ix[i] = 0; } if (i < 0 || mc::stopped()) break;
		} }
	// tables put together node by node
	for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) for (int head = 0; head < 2; head++) {
		S x = CELLS[a], y = CELLS[b]; if (!mc::begin(mc::sfmt("built table%s ", head ? " with header" : "") + mc::esc(x) + " / " + mc::esc(y))) continue; mc::transition();
		CSV_Object o; memset(&o, 0, sizeof o); adt_make_branch(&o, heap(), nullptr, !head); Cols want(2); std::vector<S> names = { "n", "m" };
		for (int c = 0; c < 2; c++) { ADT_Node* col = adt_append_arr(&o, head ? names[c].c_str() : nullptr); adt_append_str(col, nullptr, c ? y.c_str() : x.c_str()); adt_append_int(col, nullptr, a * 1000 + c); want[c].push_back({ c ? y : x, false, 0 }); want[c].push_back({ mc::sfmt("%d", a * 1000 + c), false, 0 }); }
		again(&o, want, names, head, ','); csv_free(&o);
	}
}
static void texts(bool th)
{
	static const char A[] = { 'a', ',', '"', '\n', ' ', '0', 'x', '\t', '\r' }; int len = th ? 7 : 6; S s;
	std::function<void(int)> rec = [&](int left) {
		if (mc::stopped()) return;
		for (int v = 0; v < (s.empty() || s.size() > 5 ? 1 : 3); v++) { if (!mc::mine()) { mc::skip_case(); continue; } bool header = v == 1; char delim = v == 2 ? '\t' : ','; if (!mc::begin(mc::sfmt("text%s%s ", header ? " with header" : "", v == 2 ? " with tabs" : "") + mc::esc(s))) continue;
			long live = w32::live_blocks; mc::ExactZ t(s); CSV_Object o; u8 e = 255; mc::transition();
			if (mc::fatal([&] { e = parse(&o, t, header, delim); })) { bad("a fatal failure"); continue; }
			Cols c; std::vector<S> nm; if (e) mc::count(1); else if (!read_table(&o, c, &nm)) bad("accepted but not a table: " + show(c));
			else { mc::state(mc::hash_str(show(c), header)); if (c.size() && c[0].size()) { bool blank = c.size() == 1; if (!blank) again(&o, c, nm, header, delim); else again(&o, c, nm, header, delim); } else mc::trace_ok(); }
			csv_free(&o); if (w32::live_blocks != live) bad("memory stayed in use"); }
		if (left) for (char ch : A) { s += ch; rec(left - 1); s.pop_back(); } };
	rec(len);
}
// hexadecimal cells of every length: those of up to 16 digits are exact, longer ones only must not be read past
static void wide()
{
	for (int digits = 1; digits < 100; digits++) for (int d = 0; d < 6; d++) for (int pre = 0; pre < 3; pre++) {
		S v = "0x"; for (int i = 0; i < digits; i++) v += "1fAe90"[(d + i * (d & 1)) % 6]; S src = pre == 0 ? v : pre == 1 ? "a," + v + ",b\n" : "-.+" + v; if (!mc::begin("wide cell " + src)) continue; mc::transition();
		long live = w32::live_blocks; mc::ExactZ t(src); CSV_Object o; u8 e = 255; if (mc::fatal([&] { e = parse(&o, t, false, ','); })) { bad("a fatal failure"); continue; }
		Cols c; if (e) bad(mc::sfmt("not read, error %d", e)); else { if (!read_table(&o, c, nullptr)) bad("not a table"); else { size_t k = pre == 1; Cell want = pre == 2 ? Cell{ src, false, 0 } : Cell{ "", true, (long long)strtoull(v.c_str(), 0, 16) }; if (c.size() != (pre == 1 ? 3 : 1) || c[k].size() != 1 || ((digits <= 16 || pre == 2) && !(c[k][0] == want))) bad("reads as " + show(c)); else { mc::trace_ok(); mc::state(mc::hash_str(src)); } } }
		csv_free(&o); if (w32::live_blocks != live) bad("memory stayed in use"); }
}
void explore(bool th) { wide(); mc::counter_names[0] = "blank row"; mc::counter_names[1] = "refused"; tables(th); texts(th); }
