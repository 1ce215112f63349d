// P02: gencpp's own output is stable: it parses again, into the same kinds of entries, and serializes to the same text.
#include "gram.hpp"
using namespace gen;
const char* mc::PROPERTY = "P02";
static bool blank(Code c) { if (c->Type != CT_Untyped) return false; for (ptrdiff_t i = 0; i < c->Content.Len; i++) if (!isspace((unsigned char)c->Content.Ptr[i])) return false; return true; }
static void shape(Code c, std::string& o, int depth = 0)
{
	if (c.ast == nullptr) { o += "-"; return; }
	CodeType t = c->Type;
	Str ts = codetype_to_keyword_str(t); (void)ts;
	o += mc::sfmt("%d", (int)t);
	if (c->Name.Len && t != CT_Untyped) { o += ":"; o.append(c->Name.Ptr, c->Name.Len); }
	if (t == CT_Untyped || t == CT_NewLine || t == CT_Comment) return;
	bool body = (t >= CT_Class_Body && t <= CT_Class_Body) || t == CT_Enum_Body || t == CT_Export_Body || t == CT_Extern_Linkage_Body || t == CT_Function_Body || t == CT_Global_Body || t == CT_Namespace_Body || t == CT_Struct_Body || t == CT_Union_Body;
	if (body) { o += "{"; CodeBody b = { (AST_Body*)c.ast }; for (Code e = b.begin(); e != b.end(); ++e) { if (e->Type == CT_NewLine || blank(e)) continue; shape(e, o, depth + 1); o += " "; } o += "}"; }
	else if (t == CT_Class || t == CT_Struct || t == CT_Union || t == CT_Enum || t == CT_Namespace || t == CT_Extern_Linkage || t == CT_Function) { if (c->Body.ast) shape(c->Body, o, depth + 1); }
}
static bool parse(std::string const& src, std::string& out, std::string& sh)
{
	bool rej = false; mc::ExactZ z(src);
	bool f = mc::fatal([&] { CodeBody b = parse_global_body(z.s); if (b.ast == nullptr || Code{(AST*)b.ast} == Code_Invalid) rej = true; else { out = mc::SB_(code_to_strbuilder(Code{(AST*)b.ast})); shape(Code{(AST*)b.ast}, sh); } });
	return !f && !rej;
}
static void one(const char* family, gram::Scope const& sc, std::string const& decl)
{
	std::string src = sc.pre + decl + sc.post;
	if (!mc::begin(std::string(family) + " in " + sc.name + ": " + decl)) return;
	gram::up();
	std::string o1, o2, s1, s2;
	bool ok = parse(src, o1, s1); mc::transition();
	if (!ok) mc::count(0);
	else {
		gram::down(); gram::up(); w32::std_err.clear();
		if (!parse(o1, o2, s2)) mc::violation(mc::cur_desc, "output is rejected: " + o1 + "\n" + w32::std_err.substr(0, 300));
		else if (std::string d = ref::diff(ref::toks(o1), ref::toks(o2)); !d.empty()) mc::violation(mc::cur_desc, "output changes: " + d + "\n" + o1 + "\n===>\n" + o2);
		else if (s1 != s2) mc::violation(mc::cur_desc, "kinds differ: " + s1 + "\n===>\n" + s2 + "\n" + o1);
		else { mc::trace_ok(); mc::state(mc::hash_str(o2)); mc::outcome(mc::hash_str(s2)); }
		mc::transition();
	}
	gram::down();
}
void explore(bool thorough) { mc::counter_names[0] = "rejected"; gram::everything(thorough, one); gram::specifiers([](bool) {}, one); }
