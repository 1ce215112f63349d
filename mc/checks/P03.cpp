// P03: the entry points agree: a single declaration given to its own parse function is the same code as when it stands
// in the body of the scope it belongs to.
#include "gram.hpp"
using namespace gen;
const char* mc::PROPERTY = "P03";
static Code parse_as(CodeType t, Str s)
{
	#define C(X) Code{(AST*)(X).ast}
	switch (t) {
		case CT_Class: case CT_Class_Fwd: return C(parse_class(s));
		case CT_Struct: case CT_Struct_Fwd: return C(parse_struct(s));
		case CT_Union: case CT_Union_Fwd: return C(parse_union(s));
		case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd: return C(parse_enum(s));
		case CT_Constructor: case CT_Constructor_Fwd: return C(parse_constructor(s));
		case CT_Destructor: case CT_Destructor_Fwd: return C(parse_destructor(s));
		case CT_Friend: return C(parse_friend(s));
		case CT_Function: case CT_Function_Fwd: return C(parse_function(s));
		case CT_Namespace: return C(parse_namespace(s));
		case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: return C(parse_operator(s));
		case CT_Operator_Cast: case CT_Operator_Cast_Fwd: return C(parse_operator_cast(s));
		case CT_Template: return C(parse_template(s));
		case CT_Typedef: return C(parse_typedef(s));
		case CT_Using: case CT_Using_Namespace: return C(parse_using(s));
		case CT_Variable: return C(parse_variable(s));
		case CT_Extern_Linkage: return C(parse_extern_link(s));
		case CT_Export_Body: return C(parse_export_body(s));
		case CT_Preprocess_Define: return C(parse_define(s));
		default: return Code{nullptr};
	}
}
static void entries(CodeBody b, std::vector<Code>& v) { for (Code e = b.begin(); e != b.end(); ++e) if (e->Type != CT_NewLine && e->Type != CT_Access_Public) v.push_back(e); }
static void one(const char* family, gram::Scope const& sc, std::string const& decl)
{
	std::string src = sc.pre + decl + sc.post;
	if (strstr(family, "record variable")) { mc::skip_case(); return; }   // variables with an in-place definition of their type have no function of their own
	if (strstr(family, "neighbours") || strstr(family, "triples")) { mc::skip_case(); return; }   // several declarations
	if (!mc::begin(std::string(family) + " in " + sc.name + ": " + decl)) return;
	gram::up();
	bool glob = &sc == &gram::GLOBAL || !strcmp(sc.name, "global"), cls = !strcmp(sc.name, "class"), ok = false;
	CodeType t = CT_Invalid; std::string body;
	mc::ExactZ z(src), d(decl);
	if (glob || cls) mc::fatal([&] {
		CodeBody b = parse_global_body(z.s); if (b.ast == nullptr || Code{(AST*)b.ast} == Code_Invalid) return;
		std::vector<Code> v; entries(b, v);
		if (cls) { if (v.size() != 1 || v[0]->Type != CT_Class || !v[0]->Body.ast) return; Code c = v[0]->Body; v.clear(); entries(CodeBody{(AST_Body*)c.ast}, v); }
		if (v.size() != 1) return;
		t = v[0]->Type; body = mc::SB_(code_to_strbuilder(v[0])); ok = true;
	});
	mc::transition();
	if (ok && decl.compare(0, 2, "//") && decl.compare(0, 2, "/*")) {
		gram::down(); gram::up(); w32::std_err.clear();
		std::string out; bool rej = false, none = false; CodeType t2 = CT_Invalid;
		bool f = mc::fatal([&] { Code c = parse_as(t, d.s); if (c.ast == nullptr) none = true; else if (c == Code_Invalid) rej = true; else { t2 = c->Type; out = mc::SB_(code_to_strbuilder(c)); } });
		mc::transition();
		if (none && !f) mc::count(1);
		else if (f || rej) mc::violation(mc::cur_desc, "own parse function rejects it (" + mc::sfmt("%d", (int)t) + ") " + w32::std_err.substr(0, 200));
		else if (t != t2) mc::violation(mc::cur_desc, mc::sfmt("kind %d in the body, %d alone: ", (int)t, (int)t2) + body + "\n===\n" + out);
		else if (std::string df = ref::diff(ref::toks(body), ref::toks(out)); !df.empty()) mc::violation(mc::cur_desc, "code differs: " + df + "\n" + body + "\n===\n" + out);
		else { mc::trace_ok(); mc::state(mc::hash_str(out)); mc::outcome(mc::hash_str(out)); }
	} else mc::count(0);
	gram::down();
}
// a specifier that no such declaration can have (a body takes some of them) is nothing its own parse function has to take
static bool sensible(const char* family, std::string const& d)
{
	auto has = [&](std::initializer_list<const char*> l) { for (auto w : l) if (d.find(std::string(w) + " ") != std::string::npos) return true; return false; };
	bool var = !strcmp(family, "variable specifiers"), made = !strncmp(family, "constructor", 11) || !strncmp(family, "operator cast", 13) || !strncmp(family, "destructor", 10);
	if (var) return !has({ "virtual", "explicit", "forceinline", "neverinline", "consteval" });
	if ((!strcmp(family, "function specifiers") || !strcmp(family, "operator specifiers")) && has({ "explicit" })) return false;
	return !has({ "constinit", "mutable", "thread_local", "register", "local_persist" }) && !(made && has({ "static", "extern", "global", "internal" }));
}
void explore(bool thorough) { mc::counter_names[0] = "not a single declaration"; mc::counter_names[1] = "no parse function"; gram::everything(thorough, one); gram::specifiers([](bool) {}, [](const char* family, gram::Scope const& sc, std::string const& decl) { if (sensible(family, decl)) one(family, sc, decl); else mc::skip_case(); }); }
