// U01: the upfront constructors: what is generated from a definition says exactly what its arguments say.
#include "gram.hpp"
#include "forms.hpp"
#include <functional>
using namespace gen;
const char* mc::PROPERTY = "U01";
typedef std::string S;
static Str T(const char* s) { Str r = { s, (ssize)strlen(s) }; return r; }
template <class C> static Code K(C c) { return Code{ (AST*)c.ast }; }
// An argument: how it is made, and the text it stands for.
template <class C> struct Arg { std::function<C()> make; S text, more; };
template <class C> static Arg<C> none() { return { [] { C c; memset((void*)&c, 0, sizeof c); return c; }, "", "" }; }
static Arg<CodeAttributes> at(const char* s) { return { [s] { return def_attributes(T(s)); }, s, "" }; }
static std::vector<Arg<CodeAttributes>> ATTRS, ATTRS2;
// specifiers: text is what stands before, more what stands behind
static bool trailing(Specifier s) { return s == Spec_Const || s == Spec_Final || s == Spec_NoExceptions || s == Spec_Override || s == Spec_Pure || s == Spec_Delete || s == Spec_Volatile; }
static const char* SPEC[] = { 0, "consteval", "constexpr", "constinit", "explicit", "extern", "forceinline", "global", "inline", "internal", "local_persist", "mutable", "neverinline", "*", "&", "register", "restrict", "&&", "static", "thread_local", "virtual", "const", "final", "noexcept", "override", "= 0", "= delete", "volatile" };
static Arg<CodeSpecifiers> sp(std::vector<Specifier> v, int how = 0)
{
	Arg<CodeSpecifiers> a; for (auto s : v) if (trailing(s)) a.more += S(" ") + SPEC[s]; else a.text += S(SPEC[s]) + " ";
	a.make = [v, how] () -> CodeSpecifiers {
		if (v.size() == 1 && how == 0) return def_specifier(v[0]);
		if (how == 1) { CodeSpecifiers r = def_specifier(v[0]); for (size_t i = 1; i < v.size(); i++) specifiers_append(r, v[i]); return r; }
		if (v.size() == 2) return def_specifiers(2, v[0], v[1]);
		if (v.size() == 3) return def_specifiers(3, v[0], v[1], v[2]);
		std::vector<Specifier> w = v; return def_specifiers_arr((s32)w.size(), w.data()); };
	return a;
}
static S all(Arg<CodeSpecifiers> const& a, std::vector<Specifier> const& v) { S s; for (auto x : v) s += S(" ") + SPEC[x]; return s; }
// types: text is the type, more its array part
static std::vector<Arg<CodeTypename>> TYPES, TYPES_NOARR;
static Arg<CodeTypename> ty(const char* n, ETypenameTag tag = Tag_None, std::vector<Specifier> v = {}, const char* arr = nullptr, const char* attr = nullptr)
{
	Arg<CodeTypename> a;
	if (attr) a.text += S(attr) + " ";
	a.text += tag == Tag_Class ? "class " : tag == Tag_Enum ? "enum " : tag == Tag_Struct ? "struct " : tag == Tag_Union ? "union " : "";
	a.text += n; for (auto s : v) a.text += S(" ") + SPEC[s];
	if (arr) a.more = S("[") + arr + "]";
	a.make = [=] { Opts_def_type o = {}; o.type_tag = tag; if (!v.empty()) o.specifiers = sp(v).make(); if (arr) o.array_expr = untyped_str(T(arr)); if (attr) o.attributes = def_attributes(T(attr)); return def_type(T(n), o); };
	return a;
}
static std::vector<Arg<Code>> VALUES;
static Arg<Code> val(const char* s) { return { [s] { return untyped_str(T(s)); }, s, "" }; }
static Arg<CodeParams> par(Arg<CodeTypename> t, const char* n, Arg<Code> v)
{
	Arg<CodeParams> a; a.text = t.text + " " + n + t.more + (v.text.empty() ? "" : " = " + v.text);
	a.make = [=] { Opts_def_param o = { v.make() }; return def_param(t.make(), T(n), o); }; return a;
}
static Arg<CodeParams> pars(std::vector<Arg<CodeParams>> v, int how)
{
	Arg<CodeParams> a; for (auto& x : v) { if (!a.text.empty()) a.text += ", "; a.text += x.text; }
	a.make = [=] () -> CodeParams {
		std::vector<CodeParams> c; for (auto& x : v) c.push_back(x.make());
		if (how == 0) { if (c.size() == 1) return def_params(1, c[0]); if (c.size() == 2) return def_params(2, c[0], c[1]); return def_params(3, c[0], c[1], c[2]); }
		if (how == 1) { std::vector<CodeParams> w = c; return def_params_arr((s32)c.size(), w.data()); }
		CodeParams r = c[0]; for (size_t i = 1; i < c.size(); i++) params_append(r, c[i]); return r; };
	return a;
}
static std::vector<Arg<CodeParams>> PARAMS;
static Arg<CodeBody> fbody(int k)
{
	switch (k) {
		case 0: return none<CodeBody>();
		case 1: return { [] { return def_function_body(1, K(def_execution(T("run();")))); }, "{ run(); }", "" };
		case 2: return { [] { return def_function_body(3, K(def_execution(T("a = 1;\n"))), K(def_comment(T("note"))), K(untyped_str(T("return a;")))); }, "{ a = 1; // note\n return a; }", "" };
		case 3: return { [] { return CodeBody{ (AST_Body*)untyped_str(T("return 2;")).ast }; }, "{ return 2; }", "" };
		case 4: return { [] { return CodeBody{ (AST_Body*)K(def_execution(T("return 3;"))).ast }; }, "{ return 3; }", "" };
		case 5: return { [] { return def_body(CT_Function_Body); }, "{ }", "" };
		default: return { [] { Code c[2] = { K(def_execution(T("x();"))), K(def_variable(def_type(T("int")), T("v"))) }; return def_function_body_arr(2, c); }, "{ x(); int v; }", "" };
	}
}
enum { NB = 7 };
static Arg<CodeBody> rbody(bool cls, int k)   // record bodies
{
	auto mk = [cls](std::vector<Code> v) { return cls ? def_class_body_arr((s32)v.size(), v.data()) : def_struct_body_arr((s32)v.size(), v.data()); };
	switch (k) {
		case 0: return none<CodeBody>();
		case 1: return { [cls] { return def_body(cls ? CT_Class_Body : CT_Struct_Body); }, "{ }", "" };
		case 2: return { [cls] { Code c = K(def_variable(def_type(T("int")), T("m"))); return cls ? def_class_body(1, c) : def_struct_body(1, c); }, "{ int m; }", "" };
		case 3: return { [mk] { return mk({ access_public, K(def_variable(def_type(T("int")), T("m"))), access_private, K(def_comment(T("c"))) }); }, "{ public: int m; private: // c\n }", "" };
		case 4: return { [cls] { Code c = K(def_constructor()), d = K(def_destructor()); return cls ? def_class_body(2, c, d) : def_struct_body(2, c, d); }, "{ @(); ~@(); }", "" };
		default: return { [mk] { Opts_def_constructor o = {}; o.params = PARAMS[2].make(); return mk({ K(def_constructor(o)) }); }, "{ @(" + PARAMS[2].text + "); }", "" };
	}
}
static S own(S s, S const& name) { for (size_t p; (p = s.find('@')) != S::npos;) s.replace(p, 1, name); return s; }

static S cmt(S s) { for (size_t p; (p = s.find("// ")) != S::npos;) s.erase(p + 2, 1); return s; }   // the space before a comment's text is free
// One case.  accept: must be made (1), must be refused (0), may be either (-1)
static void one(const char* what, S const& args, int accept, S const& want, std::function<Code()> make)
{
	if (!mc::begin(S(what) + "(" + args + ")")) return;
	gram::up();
	S out; bool rej = false;
	bool f = mc::fatal([&] { Code c = make(); if (c.ast == nullptr || c == Code_Invalid || c->Type == CT_Invalid) rej = true; else { out = mc::SB_(code_to_strbuilder(c)); S again = mc::SB_(code_to_strbuilder(c)); if (out != again) mc::violation(mc::cur_desc, "written differently the second time: " + again); else { S d = forms::diff(c); if (!d.empty()) mc::violation(mc::cur_desc, d); } } });
	mc::transition();
	if (f || rej) { mc::count(0); if (accept == 1) mc::violation(mc::cur_desc, "refused; " + w32::std_err.substr(0, 300)); }
	else if (accept == 0) mc::violation(mc::cur_desc, "accepted: " + out);
	else { S d = ref::diff(ref::toks(cmt(want)), ref::toks(cmt(out))); if (!d.empty()) mc::violation(mc::cur_desc, d + "\nexpected: " + want + "\ngot: " + out); else { mc::trace_ok(); mc::state(mc::hash_str(out)); mc::outcome(mc::hash_str(out)); } }
	gram::down();
}
static S ex(int e) { return e ? "export " : ""; }
static ModuleFlag mf(int e) { return e ? ModuleFlag_Export : ModuleFlag_None; }
static S opt(S const& pre, S const& s, S const& post) { return s.empty() ? S() : pre + s + post; }

static void build_tables(bool thorough)
{
	ATTRS = { none<CodeAttributes>(), at("[[nodiscard]]"), at("__declspec(dllexport)") };
	ATTRS2 = { none<CodeAttributes>(), at("[[a]]") };
	TYPES_NOARR = { ty("int"), ty("int", Tag_None, { Spec_Const, Spec_Ptr }), ty("Type", Tag_Struct, { Spec_Ref }), ty("Type", Tag_None, { Spec_Volatile, Spec_Ptr, Spec_Ptr }), ty("Type", Tag_Enum), ty("Type", Tag_Class, { Spec_Const, Spec_RValue }), ty("Type", Tag_Union, { Spec_Ptr, Spec_Const }), ty("Map<int>", Tag_None, {}, nullptr, "[[u]]") };
	TYPES = TYPES_NOARR; TYPES.push_back(ty("int", Tag_None, {}, "4")); TYPES.push_back(ty("Type", Tag_None, { Spec_Const, Spec_Ptr }, "N + 1"));
	VALUES = { none<Code>(), val("0"), val("Type { 1, 2 }"), val("f( a, \"b,c\" )") };
	Arg<CodeParams> p0 = par(TYPES[0], "a", VALUES[0]), p1 = par(TYPES[1], "b", VALUES[1]), p2 = par(TYPES[2], "c", VALUES[3]), p3 = par(TYPES[8], "d", VALUES[0]);
	PARAMS = { none<CodeParams>(), p0, p1, pars({ p0, p1 }, 0), pars({ p1, p0, p2 }, 0), pars({ p1, p2 }, 1), pars({ p0, p1, p2 }, 1), pars({ p1, p0 }, 2), pars({ p1 }, 0), pars({ p1 }, 1), pars({ p0, p3 }, 0), p3,
		{ [] { return def_params(2, def_param(def_type(T("int")), T("a")), CodeParams{ (AST_Params*)param_varadic.ast }); }, "int a, ...", "" } };
}
static std::vector<std::vector<Specifier>> spec_lists(bool thorough)
{
	std::vector<std::vector<Specifier>> r; r.push_back({});
	for (int a = 1; a < Spec_NumSpecifiers; a++) r.push_back({ (Specifier)a });
	for (auto& x : std::vector<std::vector<Specifier>>{ { Spec_Static, Spec_Inline }, { Spec_Inline, Spec_Static }, { Spec_Virtual, Spec_Const }, { Spec_Const, Spec_Virtual }, { Spec_Const, Spec_Override }, { Spec_Virtual, Spec_Const, Spec_Final }, { Spec_ForceInline, Spec_Constexpr, Spec_Static }, { Spec_Virtual, Spec_NoExceptions, Spec_Override, Spec_Pure }, { Spec_External_Linkage, Spec_Constinit, Spec_Thread_Local, Spec_Static } }) r.push_back(x);
	if (thorough) for (int a = 1; a < Spec_NumSpecifiers; a++) for (int b = 1; b < Spec_NumSpecifiers; b++) r.push_back({ (Specifier)a, (Specifier)b });
	return r;
}
static bool on_function(std::vector<Specifier> const& v) { for (auto s : v) if (s == Spec_Ptr || s == Spec_Ref || s == Spec_RValue || s == Spec_Register || s == Spec_Restrict || s == Spec_Mutable || s == Spec_Local_Persist || s == Spec_Global || s == Spec_Constinit || s == Spec_Thread_Local) return false; return true; }

static void functions(bool th)
{
	for (auto& sl : spec_lists(th)) { if (!on_function(sl)) continue;
	for (int how = 0; how < (sl.empty() ? 1 : 2); how++) { Arg<CodeSpecifiers> s = sl.empty() ? none<CodeSpecifiers>() : sp(sl, how);
	for (auto& a : ATTRS) for (size_t t = 0; t <= TYPES_NOARR.size(); t++) for (auto& p : PARAMS) for (int b = 0; b < NB; b++) for (int e = 0; e < 2; e++) {
		// the product of all is taken for a few specifiers, for the others one position varies at a time
		int var = (&a != &ATTRS[0]) + (t > 1) + (&p != &PARAMS[0]) + (b > 1) + (e > 0) + (how > 0);
		if (var > (sl.size() == 0 || (sl.size() == 1 && (sl[0] == Spec_Inline || sl[0] == Spec_Const)) || (sl.size() == 2 && sl[0] == Spec_Virtual && sl[1] == Spec_Const) ? (th ? 6 : 4) : (th ? 2 : 1))) { continue; }
		if (b && (s.more.find("= 0") != S::npos || s.more.find("= delete") != S::npos)) continue;
		Arg<CodeTypename> r = t ? TYPES_NOARR[t - 1] : none<CodeTypename>();
		Arg<CodeBody> bd = fbody(b);
		S want = ex(e) + opt("", a.text, " ") + s.text + (t ? r.text : "void") + " name(" + p.text + ")" + s.more + (b ? " " + bd.text : S(";"));
		one("def_function", want, 1, want, [&] { Opts_def_function o = {}; o.params = p.make(); if (t) o.ret_type = r.make(); o.body = bd.make(); o.specs = s.make(); o.attrs = a.make(); o.mflags = mf(e); return K(def_function(T("name"), o)); });
	} } }
}
static void variables(bool th)
{
	for (auto& sl : spec_lists(th)) { bool bad = false; for (auto s : sl) if (s == Spec_Ptr || s == Spec_Ref || s == Spec_RValue || s == Spec_Explicit || s == Spec_Virtual || s == Spec_Final || s == Spec_Override || s == Spec_Pure || s == Spec_Delete || s == Spec_NoExceptions || s == Spec_Consteval || s == Spec_Restrict) bad = true; if (bad) continue;
	Arg<CodeSpecifiers> s = sl.empty() ? none<CodeSpecifiers>() : sp(sl);
	for (auto& a : ATTRS) for (auto& t : TYPES) for (auto& v : VALUES) for (int e = 0; e < 2; e++) {
		S want = ex(e) + opt("", a.text, " ") + all(s, sl) + " " + t.text + " name" + t.more + opt(" = ", v.text, "") + ";";
		one("def_variable", want, 1, want, [&] { Opts_def_variable o = {}; o.value = v.make(); o.specifiers = s.make(); o.attributes = a.make(); o.mflags = mf(e); return K(def_variable(t.make(), T("name"), o)); });
	} }
}
static void typedefs()
{
	for (auto& a : ATTRS) for (auto& t : TYPES) for (int e = 0; e < 2; e++) {
		S want = ex(e) + "typedef " + opt("", a.text, " ") + t.text + " name" + t.more + ";";
		one("def_typedef", want, 1, want, [&] { Opts_def_typedef o = {}; o.attributes = a.make(); o.mflags = mf(e); return K(def_typedef(T("name"), K(t.make()), o)); });
		want = ex(e) + "using name " + opt("", a.text, " ") + "= " + t.text + t.more + ";";
		one("def_using", want, 1, want, [&] { Opts_def_using o = {}; o.attributes = a.make(); o.mflags = mf(e); return K(def_using(T("name"), t.make(), o)); });
	}
	for (int e = 0; e < 2; e++) {
		auto td = [&](S const& decl, std::function<Code()> mk) { S want = ex(e) + "typedef " + decl + " name;"; one("def_typedef", want, 1, want, [&] { Opts_def_typedef o = {}; o.mflags = mf(e); Code d = mk(); return K(def_typedef(T("name"), d, o)); }); };
		td("struct A", [] { return K(def_struct(T("A"))); }); td("class A", [] { return K(def_class(T("A"))); });
		td("struct { int m; }", [] { Str n = { nullptr, 0 }; Opts_def_struct o = {}; o.body = rbody(false, 2).make(); return K(def_struct(n, o)); });
		td("class A { int m; }", [] { Opts_def_struct o = {}; o.body = rbody(true, 2).make(); return K(def_class(T("A"), o)); });
		td("enum A : int { X }", [] { Opts_def_enum o = {}; o.type = def_type(T("int")); o.body = CodeBody{ (AST_Body*)untyped_str(T("X")).ast }; return K(def_enum(T("A"), o)); });
		td("enum A : int", [] { Opts_def_enum o = {}; o.type = def_type(T("int")); return K(def_enum(T("A"), o)); });
		td("union A { }", [] { return K(def_union(T("A"), def_body(CT_Union_Body))); });
		{ S w = ex(e) + "typedef int name( int a );"; one("def_typedef", w, 1, w, [&] { Opts_def_typedef o = {}; o.mflags = mf(e); Opts_def_function f = {}; f.params = PARAMS[1].make(); f.ret_type = def_type(T("int")); return K(def_typedef(T("name"), K(def_function(T("f"), f)), o)); }); }
		S want = ex(e) + "typedef void (*cb)( int a );";
		one("def_typedef", want + " untyped", 1, want, [&] { Opts_def_typedef o = {}; o.mflags = mf(e); Str none = { nullptr, 0 }; return K(def_typedef(none, untyped_str(T("void (*cb)( int a )")), o)); });
	}
	one("def_using", "null type", 0, "", [] { CodeTypename n = {}; return K(def_using(T("name"), n)); });
	one("def_using_namespace", "name", 1, "using namespace name;", [] { return K(def_using_namespace(T("name"))); });
}
static void records(bool th)
{
	struct Par { int parent; int access; int n; int a1, a2; };
	static const char* ACC[] = { "", "private", "protected", "public" };
	for (int cls = 0; cls < 2; cls++) for (auto& a : ATTRS) for (int fin = 0; fin < 2; fin++) for (int b = 0; b < 6; b++) for (int e = 0; e < 2; e++)
	for (int parent = 0; parent < 3; parent++) for (int acc = 0; acc < 4; acc++) for (int n = 0; n < 3; n++) for (int ia = 0; ia < 4; ia++) {
		if (!parent && acc) continue; if (!n && ia) continue;
		if (!b && (fin || parent || n)) continue;
		int var = (&a != &ATTRS[0]) + fin + (b > 1) + e + (ia > 0); if (!th && var > 3) continue;
		S base; S first = parent == 1 ? "Parent" : "ns::Parent<int>";
		auto access = [&](int x, bool iface) -> S { return x ? S(ACC[x]) + " " : S(iface && cls ? "public " : ""); };
		if (parent) base = " : " + (acc == 0 && n ? S("public ") : S(ACC[acc]) + " ") + first;
		for (int i = 0; i < n; i++) base += (base.empty() ? S(" : ") + (ia ? S(ACC[ia]) + " " : S("public ")) : S(", ") + access(ia, true)) + (i ? "Second" : "First");
		Arg<CodeBody> bd = rbody(cls, b);
		S kw = cls ? "class" : "struct", want = ex(e) + kw + " " + opt("", a.text, " ") + "Name" + (fin ? " final" : "") + base + (b ? " " + own(bd.text, "Name") : S()) + ";";
		one(cls ? "def_class" : "def_struct", want, 1, want, [&] {
			Opts_def_struct o = {}; o.body = bd.make(); o.attributes = a.make(); if (fin) o.specifiers = def_specifier(Spec_Final); o.mflags = mf(e);
			if (parent) { o.parent = def_type(T(first.c_str())); o.parent_access = (AccessSpec)acc; }
			CodeTypename i[2]; i[0] = def_type(T("First")); i[1] = def_type(T("Second")); for (auto& x : i) x->InterfaceAccess = (AccessSpec)ia;
			if (n) { o.interfaces = i; o.num_interfaces = n; }
			return cls ? K(def_class(T("Name"), o)) : K(def_struct(T("Name"), o)); });
	}
	for (auto& a : ATTRS) for (int e = 0; e < 2; e++) for (int named = 0; named < 2; named++) for (int k = 0; k < 3; k++) {
		S body = k == 0 ? "{ }" : k == 1 ? "{ int a; }" : "{ // c\n int a; float b; }";
		S want = ex(e) + "union " + opt("", a.text, " ") + (named ? "Name " : "") + body + ";";
		one("def_union", want, 1, want, [&] { Opts_def_union o = {}; o.attributes = a.make(); o.mflags = mf(e); Str n = { nullptr, 0 };
			CodeBody b = k == 0 ? def_body(CT_Union_Body) : k == 1 ? def_union_body(1, untyped_str(T("int a;\n"))) : def_union_body(3, K(def_comment(T("c"))), untyped_str(T("int a;\n")), untyped_str(T("float b;\n")));
			return K(def_union(named ? T("Name") : n, b, o)); });
	}
	// an unnamed structure
	one("def_struct", "unnamed", 1, "struct { int m; };", [] { Str n = { nullptr, 0 }; Opts_def_struct o = {}; o.body = rbody(false, 2).make(); return K(def_struct(n, o)); });
}
static void enums()
{
	for (auto& a : ATTRS) for (int cls = 0; cls < 2; cls++) for (int u = 0; u < 4; u++) for (int b = 0; b < 5; b++) for (int e = 0; e < 2; e++) {
		S under = u == 0 ? "" : u == 1 ? " : u8" : u == 2 ? " : unsigned int" : " enum_underlying(u16)";
		S body = b == 0 ? "" : b == 1 ? "{ }" : b == 2 ? "{ A, B = 2, }" : b == 3 ? "{ // c\n A, }" : "{ X }";
		S want = ex(e) + "enum " + (cls ? "class " : "") + opt("", a.text, " ") + "Name" + under + (b ? " " + body : S()) + ";";
		int accept = b == 0 && u == 0 ? (cls ? -1 : 0) : 1;
		one("def_enum", want, accept, want, [&] { Opts_def_enum o = {}; o.attributes = a.make(); o.mflags = mf(e); o.specifier = cls ? EnumDecl_Class : EnumDecl_Regular;
			if (u == 1) o.type = def_type(T("u8")); if (u == 2) o.type = def_type(T("unsigned int")); if (u == 3) o.type_macro = untyped_str(T("enum_underlying(u16)"));
			if (b == 1) o.body = def_body(CT_Enum_Body); if (b == 2) o.body = def_enum_body(2, untyped_str(T("A,\n")), untyped_str(T("B = 2,\n"))); if (b == 3) o.body = def_enum_body(2, K(def_comment(T("c"))), untyped_str(T("A,\n"))); if (b == 4) o.body = CodeBody{ (AST_Body*)untyped_str(T("X")).ast };
			return K(def_enum(T("Name"), o)); });
	}
}
static Arg<Code> xbody(int k)
{
	switch (k) {
		case 0: return { [] { return K(def_function(T("f"))); }, "void f();", "" };
		case 1: return { [] { return K(def_variable(def_type(T("int")), T("v"))); }, "int v;", "" };
		case 2: return { [] { return K(def_comment(T("c"))); }, "// c\n", "" };
		case 3: return { [] { Opts_def_struct o = {}; return K(def_struct(T("F"), o)); }, "struct F;", "" };
		default: return { [] { return K(def_include(T("x.h"))); }, "\n#include \"x.h\"\n", "" };
	}
}
static void scopes()
{
	for (int i = -1; i < 5; i++) for (int j = -1; j < 5; j++) for (int e = 0; e < 2; e++) for (int arr = 0; arr < 2; arr++) {
		if (i < 0 && j >= 0) continue;
		std::vector<Arg<Code>> v; if (i >= 0) v.push_back(xbody(i)); if (j >= 0) v.push_back(xbody(j));
		S in; for (auto& x : v) in += x.text + " ";
		auto mk = [&](CodeType t) -> CodeBody {
			std::vector<Code> c; for (auto& x : v) c.push_back(x.make());
			if (c.empty()) return def_body(t == CT_Extern_Linkage_Body ? CT_Extern_Linkage_Body : t);
			s32 n = (s32)c.size(); Code* p = c.data();
			#define BODY(X) (arr ? X##_arr(n, p) : n == 1 ? X(1, p[0]) : X(2, p[0], p[1]))
			switch (t) { case CT_Namespace_Body: return BODY(def_namespace_body); case CT_Extern_Linkage_Body: return BODY(def_extern_link_body); case CT_Export_Body: return BODY(def_export_body); case CT_Global_Body: return BODY(def_global_body); default: return CodeBody{ nullptr }; } };
		S a = arr ? " arr" : "";
		S want = ex(e) + "namespace ns { " + in + "}";
		one("def_namespace", want + a, 1, want, [&] { Opts_def_namespace o = { mf(e) }; return K(def_namespace(T("ns"), mk(CT_Namespace_Body), o)); });
		if (!e) {
			want = "extern \"C\" { " + in + "}"; one("def_extern_link", want + a, 1, want, [&] { return K(def_extern_link(T("C"), mk(CT_Extern_Linkage_Body))); });
			want = "export { " + in + "}"; if (i >= 0) one("def_export_body", want + a, 1, want, [&] { return K(mk(CT_Export_Body)); });
			want = in; if (i >= 0) one("def_global_body", want + a, 1, want, [&] { return K(mk(CT_Global_Body)); });
		}
	}
	for (int m = 0; m < 4; m++) { S want = S(m & 1 ? "export " : "") + (m & 2 ? "import " : "module ") + "name;"; one("def_module", want, 1, want, [m] { Opts_def_module o = { (ModuleFlag)((m & 1 ? ModuleFlag_Export : 0) | (m & 2 ? ModuleFlag_Import : 0)) }; return K(def_module(T("name"), o)); }); }
}
static void templates()
{
	struct D { const char* text; std::function<Code()> mk; bool body; };
	std::vector<D> ds = {
		{ "class A { int m; };", [] { Opts_def_struct o = {}; o.body = rbody(true, 2).make(); return K(def_class(T("A"), o)); } },
		{ "struct A { int m; };", [] { Opts_def_struct o = {}; o.body = rbody(false, 2).make(); return K(def_struct(T("A"), o)); } },
		{ "inline T f(T a) { run(); }", [] { Opts_def_function o = {}; o.params = def_param(def_type(T("T")), T("a")); o.ret_type = def_type(T("T")); o.body = fbody(1).make(); o.specs = def_specifier(Spec_Inline); return K(def_function(T("f"), o)); } },
		{ "T v = 0;", [] { Opts_def_variable o = {}; o.value = untyped_str(T("0")); return K(def_variable(def_type(T("T")), T("v"), o)); } },
		{ "using U = T *;", [] { return K(def_using(T("U"), ty("T", Tag_None, { Spec_Ptr }).make())); } },
	};
	std::vector<Arg<CodeParams>> ps = { none<CodeParams>(), par(ty("typename"), "T", none<Code>()), par(ty("class"), "T", val("int")), pars({ par(ty("typename"), "T", none<Code>()), par(ty("int"), "N", val("4")) }, 0), pars({ par(ty("typename"), "T", val("int")), par(ty("int"), "N", val("4")) }, 1) };
	for (auto& d : ds) for (auto& p : ps) for (int e = 0; e < 2; e++) {
		S want = ex(e) + "template<" + p.text + "> " + d.text;
		one("def_template", want, 1, want, [&] { Opts_def_template o = { mf(e) }; Code c = d.mk(); return K(def_template(p.make(), c, o)); });
	}
	std::vector<D> fs = { ds[0], ds[1], { "void f();", [] { return K(def_function(T("f"))); } }, { "class A;", [] { return K(def_class(T("A"))); } }, { "struct A;", [] { return K(def_struct(T("A"))); } }, ds[2],
		{ "bool operator ==( T a, T b );", [] { Opts_def_operator o = {}; o.params = pars({ par(ty("T"), "a", none<Code>()), par(ty("T"), "b", none<Code>()) }, 0).make(); o.ret_type = t_bool; Str n = { nullptr, 0 }; return K(def_operator(Op_LEqual, n, o)); } } };
	for (auto& d : fs) { S want = S("friend ") + d.text; one("def_friend", want, 1, want, [&] { Code c = d.mk(); return K(def_friend(c)); }); }
}
static void members(bool th)
{
	for (int st = 0; st < 2; st++) {
		auto wrap = [st](Code m) -> Code { CodeBody b = st ? def_struct_body(1, m) : def_class_body(1, m); Opts_def_struct o = {}; o.body = b; return st ? K(def_struct(T("Owner"), o)) : K(def_class(T("Owner"), o)); };
		S pre = st ? "struct Owner { " : "class Owner { ";
		for (auto& p : PARAMS) for (int i = 0; i < 3; i++) for (int b = 0; b < 6; b++) {
			if (b == 4) continue; if (!b && i) continue;
			S init = i == 0 ? "" : i == 1 ? " : a( 1 )" : " : Base( x ), b { 2 }";
			S want = pre + "Owner(" + p.text + ")" + init + (b ? " " + fbody(b).text : S(";")) + " };";
			one("def_constructor", want, 1, want, [&] { Opts_def_constructor o = {}; o.params = p.make(); if (i) o.initializer_list = untyped_str(T(init.c_str() + 3)); o.body = K(fbody(b).make()); return wrap(K(def_constructor(o))); });
		}
		for (auto& sl : std::vector<std::vector<Specifier>>{ {}, { Spec_Virtual }, { Spec_Virtual, Spec_Pure }, { Spec_Override }, { Spec_Virtual, Spec_Override }, { Spec_Virtual, Spec_Final }, { Spec_Inline }, { Spec_Constexpr, Spec_NoExceptions }, { Spec_Delete } }) for (int b = 0; b < 6; b++) {
			if (b == 4) continue; Arg<CodeSpecifiers> s = sl.empty() ? none<CodeSpecifiers>() : sp(sl);
			if (b && s.more.find("=") != S::npos) continue;
			S want = pre + s.text + "~Owner()" + s.more + (b ? " " + fbody(b).text : S(";")) + " };";
			one("def_destructor", want, 1, want, [&] { Opts_def_destructor o = {}; o.specifiers = s.make(); o.body = K(fbody(b).make()); return wrap(K(def_destructor(o))); });
		}
	}
	for (auto& t : TYPES_NOARR) for (auto& sl : std::vector<std::vector<Specifier>>{ {}, { Spec_Const }, { Spec_Explicit }, { Spec_Explicit, Spec_Const }, { Spec_Virtual, Spec_Const, Spec_Override }, { Spec_Inline } }) for (int b = 0; b < 6; b++) {
		if (b == 3) continue; Arg<CodeSpecifiers> s = sl.empty() ? none<CodeSpecifiers>() : sp(sl);
		S want = s.text + "operator " + t.text + "()" + s.more + (b ? " " + fbody(b).text : S(";"));
		one("def_operator_cast", want, 1, want, [&] { Opts_def_operator_cast o = {}; o.specs = s.make(); o.body = fbody(b).make(); return K(def_operator_cast(t.make(), o)); });
	}
}
static void operators(bool th)
{
	// the forms each operator has: parameters of a member, of a free function
	struct O { Operator op; const char* s; const char* forms; };   // forms: '0' none, '1' (T b), '2' (T a, T b), 'i' (int), 'j' (T a, int)
	std::vector<O> os;
	for (auto& x : std::vector<std::pair<Operator, const char*>>{ { Op_Assign_Add, "+=" }, { Op_Assign_Subtract, "-=" }, { Op_Assign_Multiply, "*=" }, { Op_Assign_Divide, "/=" }, { Op_Assign_Modulo, "%=" }, { Op_Assign_BAnd, "&=" }, { Op_Assign_BOr, "|=" }, { Op_Assign_BXOr, "^=" }, { Op_Assign_LShift, "<<=" }, { Op_Assign_RShift, ">>=" },
		{ Op_Add, "+" }, { Op_Subtract, "-" }, { Op_Multiply, "*" }, { Op_Divide, "/" }, { Op_Modulo, "%" }, { Op_BAnd, "&" }, { Op_BOr, "|" }, { Op_BXOr, "^" }, { Op_LShift, "<<" }, { Op_RShift, ">>" }, { Op_PtrToMemOfPtr, "->*" } }) os.push_back({ x.first, x.second, "12" });
	for (auto& x : std::vector<std::pair<Operator, const char*>>{ { Op_LAnd, "&&" }, { Op_LOr, "||" }, { Op_LEqual, "==" }, { Op_LNot, "!=" }, { Op_Lesser, "<" }, { Op_Greater, ">" }, { Op_LesserEqual, "<=" }, { Op_GreaterEqual, ">=" } }) os.push_back({ x.first, x.second, "12" });
	for (auto& x : std::vector<O>{ { Op_Assign, "=", "1" }, { Op_Increment, "++", "01ij" }, { Op_Decrement, "--", "01ij" }, { Op_Unary_Plus, "+", "01" }, { Op_Unary_Minus, "-", "01" }, { Op_UnaryNot, "!", "01" }, { Op_BNot, "~", "01" }, { Op_Subscript, "[]", "1" }, { Op_Indirection, "*", "01" }, { Op_AddressOf, "&", "01" }, { Op_MemberOfPointer, "->", "0" }, { Op_FunctionCall, "()", "0123" }, { Op_Comma, ",", "12" }, { Op_New, "new", "s" }, { Op_NewArray, "new[]", "s" }, { Op_Delete, "delete", "p" }, { Op_DeleteArray, "delete[]", "p" } }) os.push_back(x);
	auto P = [](const char* t, const char* n) { return par(ty(t), n, none<Code>()); };
	for (auto& o : os) for (const char* f = o.forms; *f; f++) for (int ns = 0; ns < 2; ns++) for (auto& a : ATTRS2) for (int b = 0; b < 6; b++) for (int e = 0; e < 2; e++)
	for (auto& sl : std::vector<std::vector<Specifier>>{ {}, { Spec_Inline }, { Spec_Const }, { Spec_Constexpr, Spec_Const }, { Spec_Static, Spec_Inline } }) {
		bool two = *f == '2' || *f == 'j'; if (two && sl.size() && sl.back() == Spec_Const) continue;
		int var = ns + (&a != &ATTRS2[0]) + (b > 1) + e + (sl.size() > 0); if (!th && var > 2) continue;
		Arg<CodeSpecifiers> s = sl.empty() ? none<CodeSpecifiers>() : sp(sl);
		Arg<CodeParams> p = *f == '0' ? none<CodeParams>() : *f == '1' ? P("T", "b") : *f == '2' ? pars({ P("T", "a"), P("T", "b") }, 0) : *f == '3' ? pars({ P("T", "a"), P("T", "b"), P("int", "c") }, 0) : *f == 'i' ? P("int", "i") : *f == 'j' ? pars({ P("T", "a"), P("int", "i") }, 0) : *f == 's' ? P("size_t", "n") : par(ty("void", Tag_None, { Spec_Ptr }), "p", none<Code>());
		bool boolean = o.op == Op_UnaryNot || (o.op >= Op_LAnd && o.op <= Op_GreaterEqual);
		S ret = boolean ? "bool" : *f == 's' ? "void *" : *f == 'p' ? "void" : "T";
		S want = ex(e) + opt("", a.text, " ") + s.text + ret + " " + (ns ? "ns::" : "") + "operator " + o.s + " (" + p.text + ")" + s.more + (b ? " " + fbody(b).text : S(";"));
		one("def_operator", want + " [" + std::to_string((int)o.op) + "]", 1, want, [&] { Opts_def_operator d = {}; d.params = p.make(); d.ret_type = boolean ? t_bool : *f == 's' ? ty("void", Tag_None, { Spec_Ptr }).make() : *f == 'p' ? def_type(T("void")) : def_type(T("T")); d.body = fbody(b).make(); d.specifiers = s.make(); d.attributes = a.make(); d.mflags = mf(e); Str n = { nullptr, 0 };
			return K(def_operator(o.op, ns ? T("ns::") : n, d)); });
	}
}
static void texts(bool th)
{
	// comments: every line of the text becomes one line of comment
	std::vector<S> alpha = { "", "a", "two words", "  indented", "x // y", "end " };
	int n = th ? 4 : 3;
	std::function<void(int, S, S)> rec = [&](int k, S txt, S want) {
		if (!txt.empty()) for (int tail = 0; tail < 2; tail++) {
			if (!tail && txt.back() == '\n') continue; S t = txt + (tail ? "\n" : ""), w = want;
			if (!mc::begin("def_comment(" + mc::esc(t) + ")")) continue;
			gram::up(); S out; bool f = mc::fatal([&] { mc::Exact x(t); CodeComment c = def_comment(x.s); out = mc::SB_(code_to_strbuilder(K(c))); }); mc::transition();
			if (f) mc::violation(mc::cur_desc, "refused");
			else {
				std::vector<S> lines; S cur; for (char ch : out) if (ch == '\n') { lines.push_back(cur); cur.clear(); } else cur += ch; if (!cur.empty()) mc::violation(mc::cur_desc, "does not end its line: " + out);
				std::vector<S> wl; cur.clear(); for (char ch : w) if (ch == '\n') { wl.push_back(cur); cur.clear(); } else cur += ch; wl.push_back(cur);
				auto trim = [](S s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; };
				while (lines.size() > wl.size() && trim(lines.back()) == "//") lines.pop_back();
				bool ok = lines.size() == wl.size(); for (size_t i = 0; ok && i < wl.size(); i++) { S l = trim(lines[i]), x = trim(wl[i]); ok = l == "//" + x || l == "// " + x; }
				if (!ok) mc::violation(mc::cur_desc, "got " + mc::esc(out)); else { mc::trace_ok(); mc::state(mc::hash_str(out)); }
			}
			gram::down();
		}
		if (k < n) for (auto& l : alpha) rec(k + 1, k ? txt + "\n" + l : l, k ? want + "\n" + l : l);
	};
	rec(0, "", "");
	auto raw = [](const char* what, S const& arg, S const& want, std::function<Code(Str)> mk) {
		if (!mc::begin(S(what) + "(" + mc::esc(arg) + ")")) return;
		gram::up(); S out; bool f = mc::fatal([&] { mc::Exact x(arg); Code c = mk(x.s); out = mc::SB_(code_to_strbuilder(c)); }); mc::transition();
		S o = out; while (!o.empty() && o.back() == '\n') o.pop_back(); S w = want; while (!w.empty() && w.back() == '\n') w.pop_back();
		if (f || o != w) mc::violation(mc::cur_desc, "got " + mc::esc(out) + " for " + mc::esc(want)); else { mc::trace_ok(); mc::state(mc::hash_str(out)); } gram::down(); };
	for (S t : { "a", "a b", "once", "x\n", "if (a) { b(); }", "pack( push, 1 )", "defined(A) && B > 2", "[[x]]", "a::b<c>", "\"q\"", "1", "%d %s", "50%" }) {
		raw("def_execution", t, t, [](Str s) { return K(def_execution(s)); });
		raw("untyped_str", t, t, [](Str s) { return untyped_str(s); });
		raw("def_attributes", t, t, [](Str s) { return K(def_attributes(s)); });
		raw("def_pragma", t, "#pragma " + t, [](Str s) { return K(def_pragma(s)); });
		raw("def_include", t, "#include \"" + t + "\"", [](Str s) { return K(def_include(s)); });
		raw("def_include foreign", t, "#include <" + t + ">", [](Str s) { Opts_def_include o = { true }; return K(def_include(s, o)); });
		raw("def_preprocess_cond if", t, "#if " + t, [](Str s) { return K(def_preprocess_cond(PreprocessCond_If, s)); });
		raw("def_preprocess_cond ifdef", t, "#ifdef " + t, [](Str s) { return K(def_preprocess_cond(PreprocessCond_IfDef, s)); });
		raw("def_preprocess_cond ifndef", t, "#ifndef " + t, [](Str s) { return K(def_preprocess_cond(PreprocessCond_IfNotDef, s)); });
		raw("def_preprocess_cond elif", t, "#elif " + t, [](Str s) { return K(def_preprocess_cond(PreprocessCond_ElIf, s)); });
	}
	raw("preprocess_else", "x", "#else", [](Str) { return K(preprocess_else); });
	raw("preprocess_endif", "x", "#endif", [](Str) { return K(preprocess_endif); });
	raw("pragma_once", "x", "#pragma once", [](Str) { return K(pragma_once); });
	// defines, and whether they are known to the parser afterwards
	for (int ty = 0; ty < 3; ty++) for (int p = 0; p < 4; p++) for (int c = 0; c < 4; c++) for (int reg = 0; reg < 2; reg++) {
		S content = c == 0 ? "" : c == 1 ? "1" : c == 2 ? "do { x; } while (0)" : "a \\\n b"; S ps = p == 0 ? "" : p == 1 ? "( a )" : p == 2 ? "( a, b )" : "( a, b, ... )";
		S want = "#define NAME" + ps + " " + content + "\n";
		if (!mc::begin("def_define(" + mc::esc(want) + " kind " + std::to_string(ty) + (reg ? "" : " unregistered") + ")")) continue;
		gram::up(); S out; bool known = false; int kind = -1, fl = -1;
		bool f = mc::fatal([&] {
			Opts_def_define o = {}; mc::Exact x(content); if (c) o.content = x.s; o.dont_register_to_preprocess_macros = !reg; o.flags = p ? MF_Functional : MF_Null;
			if (p) { S src = "#define M(" + S(p == 1 ? "a" : p == 2 ? "a, b" : "a, b, ...") + ") x\n"; Str ss = { src.c_str(), (ssize)src.size() }; CodeDefine d = parse_define(ss); o.params = d->Params; }
			CodeDefine d = def_define(T("NAME"), (MacroType)ty, o); out = mc::SB_(code_to_strbuilder(K(d)));
			Macro* m = lookup_macro(T("NAME")); known = m != nullptr; if (m) { kind = m->Type; fl = m->Flags; } });
		mc::transition();
		S d = f ? S("refused") : ref::diff(ref::toks(want), ref::toks(out));
		if (d.empty() && known != (reg != 0)) d = known ? "registered although not asked to" : "not registered"; if (d.empty() && known && (kind != ty || fl != (p ? MF_Functional : MF_Null))) d = "registered with another kind";
		if (!d.empty()) mc::violation(mc::cur_desc, d + " got " + mc::esc(out)); else { mc::trace_ok(); mc::state(mc::hash_str(out + (known ? "r" : ""))); }
		gram::down();
	}
}
// calls f with n of v as its variadic arguments
#define VA(f, n, v) (n == 1 ? f(1, v[0]) : n == 2 ? f(2, v[0], v[1]) : n == 3 ? f(3, v[0], v[1], v[2]) : n == 4 ? f(4, v[0], v[1], v[2], v[3]) : n == 5 ? f(5, v[0], v[1], v[2], v[3], v[4]) : n == 6 ? f(6, v[0], v[1], v[2], v[3], v[4], v[5]) : n == 7 ? f(7, v[0], v[1], v[2], v[3], v[4], v[5], v[6]) : f(8, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]))
static void lists(bool th)
{
	static const char* ACC[] = { "", "private ", "protected ", "public " }; static const char* WAY[] = { "variadic", "array", "appended", "appended in two" };
	int N = th ? 8 : 6;
	// parameters
	for (int n = 1; n <= N; n++) for (int way = 0; way < 4; way++) for (int kind = 0; kind < 3; kind++) {
		S in; std::vector<Arg<CodeParams>> ps; for (int i = 0; i < n; i++) { ps.push_back(kind == 2 ? par(i & 1 ? ty("int") : ty("typename"), ("P" + std::to_string(i)).c_str() + 0, none<Code>()) : par(TYPES[(i * 3 + kind) % TYPES.size()], "p", VALUES[(i + kind) % 4])); }
		static std::vector<S> names; if (names.empty()) for (int i = 0; i < 16; i++) names.push_back("P" + std::to_string(i));
		if (kind == 2) for (int i = 0; i < n; i++) ps[i] = par(i & 1 ? ty("int") : ty("typename"), names[i].c_str(), none<Code>());
		for (auto& p : ps) in += (in.empty() ? "" : ", ") + p.text;
		auto mk = [&]() -> CodeParams { std::vector<CodeParams> c; for (auto& p : ps) c.push_back(p.make()); if (way == 0) return VA(def_params, n, c); if (way == 1) return def_params_arr(n, c.data()); if (way == 2) { for (int i = 1; i < n; i++) params_append(c[0], c[i]); return c[0]; }
			int h = (n + 1) / 2; CodeParams a = def_params_arr(h, c.data()); if (h < n) { CodeParams b = def_params_arr(n - h, c.data() + h); params_append(a, b); } return a; };
		S want = kind == 2 ? "template<" + in + "> class A { int m; };" : "void name(" + in + ");";
		one(kind == 2 ? "def_template" : "def_function", S(WAY[way]) + " " + want, 1, want, [&] { CodeParams p = mk(); if (kind == 2) { Opts_def_template o = {}; Opts_def_struct r = {}; r.body = rbody(true, 2).make(); return K(def_template(p, K(def_class(T("A"), r)), o)); } Opts_def_function o = {}; o.params = p; return K(def_function(T("name"), o)); });
	}
	// specifiers
	static const Specifier SP[] = { Spec_Static, Spec_Inline, Spec_Const, Spec_Constexpr, Spec_ForceInline, Spec_Override, Spec_Virtual, Spec_NoExceptions };
	for (int n = 1; n <= 8; n++) for (int rot = 0; rot < 8; rot++) for (int way = 0; way < 3; way++) { std::vector<Specifier> v; for (int i = 0; i < n; i++) v.push_back(SP[(i + rot) % 8]); S pre, post; for (auto x : v) (trailing(x) ? post += S(" ") + SPEC[x] : pre += S(SPEC[x]) + " ");
		S want = pre + "void name()" + post + ";"; one("def_specifiers", S(WAY[way]) + " " + want, 1, want, [&] { CodeSpecifiers sp = way == 0 ? VA(def_specifiers, n, v) : way == 1 ? def_specifiers_arr(n, v.data()) : def_specifier(v[0]); if (way == 2) for (int i = 1; i < n; i++) specifiers_append(sp, v[i]); Opts_def_function o = {}; o.specs = sp; return K(def_function(T("name"), o)); }); }
	// interfaces
	for (int cls = 0; cls < 2; cls++) for (int parent = 0; parent < 2; parent++) for (int acc = 0; acc < 4; acc++) for (int n = 0; n <= N; n++) for (int pat = 0; pat < 5; pat++) for (int how = 0; how < 3; how++) {
		if (!parent && acc) continue; if (!n && pat) continue; auto ac = [&](int i) { return pat == 4 ? 1 + i % 3 : pat; };   // the access of each interface
		S base; if (parent) base = " : " + (acc == 0 && n ? S("public ") : S(ACC[acc])) + "Parent"; for (int i = 0; i < n; i++) base += (base.empty() ? S(" : ") + (ac(i) ? ACC[ac(i)] : "public ") : S(", ") + (ac(i) ? ACC[ac(i)] : cls ? "public " : "")) + "I" + std::to_string(i);
		S want = S(cls ? "class" : "struct") + " Name" + base + " { int m; };"; int split = how == 0 ? n : how == 1 ? 0 : n / 2; if (how == 2 && n < 2) continue;
		one(cls ? "def_class" : "def_struct", want + " added from " + std::to_string(split), 1, want, [&] {
			static std::vector<S> names; if (names.empty()) for (int i = 0; i < 16; i++) names.push_back("I" + std::to_string(i)); std::vector<CodeTypename> v; for (int i = 0; i < n; i++) { v.push_back(def_type(T(names[i].c_str()))); v.back()->InterfaceAccess = (AccessSpec)ac(i); }
			Opts_def_struct o = {}; o.body = rbody(cls, 2).make(); if (parent) { o.parent = def_type(T("Parent")); o.parent_access = (AccessSpec)acc; } if (split) { o.interfaces = v.data(); o.num_interfaces = split; }
			if (cls) { CodeClass c = def_class(T("Name"), o); for (int i = split; i < n; i++) i & 1 ? c.add_interface(v[i]) : class_add_interface(c, v[i]); return K(c); } CodeStruct c = def_struct(T("Name"), o); for (int i = split; i < n; i++) struct_add_interface(c, v[i]); return K(c); });
	}
	// bodies
	for (int kind = 0; kind < 9; kind++) for (int n = 1; n <= 8; n++) for (int way = 0; way < 3; way++) for (int rot = 0; rot < 3; rot++) {
		static const CodeType KT[] = { CT_Global_Body, CT_Namespace_Body, CT_Extern_Linkage_Body, CT_Export_Body, CT_Class_Body, CT_Struct_Body, CT_Union_Body, CT_Enum_Body, CT_Function_Body };
		static const char* OPEN[] = { "", "namespace ns { ", "extern \"C\" { ", "export { ", "class A { ", "struct A { ", "union A { ", "enum A { ", "void f() { " }; static const char* CLOSE[] = { "", "}", "}", "}", "};", "};", "};", "};", "}" };
		static std::vector<S> ut, vn, ud; if (ut.empty()) for (int i = 0; i < 16; i++) { ut.push_back("E" + std::to_string(i) + ",\n"); vn.push_back("v" + std::to_string(i)); ud.push_back("int " + vn[i] + ";\n"); }
		S in; for (int i = 0; i < n; i++) { int e = (i + rot) % 3; in += kind == 6 || kind == 7 ? (e == 1 ? S("// c\n") : kind == 6 ? "int " + vn[i] + ";\n" : ut[i]) : e == 0 ? "int " + vn[i] + "; " : e == 1 ? S("// c\n") : S("using A = int; "); }
		S want = OPEN[kind] + in + CLOSE[kind];
		one("body", S(WAY[way]) + " " + want, 1, want, [&] {
			std::vector<Code> c; for (int i = 0; i < n; i++) { int e = (i + rot) % 3; c.push_back(e == 1 ? K(def_comment(T("c"))) : kind == 7 ? K(untyped_str(T(ut[i].c_str()))) : kind == 6 ? K(untyped_str(T(ud[i].c_str()))) : e == 0 ? K(def_variable(def_type(T("int")), T(vn[i].c_str()))) : K(def_using(T("A"), def_type(T("int"))))); }
			CodeBody b = { nullptr }; Code* p = c.data();
			#define MK(X) (way == 1 ? X##_arr(n, p) : VA(X, n, c))
			if (way == 2) { b = def_body(KT[kind]); for (auto x : c) body_append(b, x); } else switch (kind) { case 0: b = MK(def_global_body); break; case 1: b = MK(def_namespace_body); break; case 2: b = MK(def_extern_link_body); break; case 3: b = MK(def_export_body); break; case 4: b = MK(def_class_body); break; case 5: b = MK(def_struct_body); break; case 6: b = MK(def_union_body); break; case 7: b = MK(def_enum_body); break; default: b = MK(def_function_body); }
			Opts_def_struct r = {}; r.body = b; switch (kind) { case 1: return K(def_namespace(T("ns"), b)); case 2: return K(def_extern_link(T("C"), b)); case 4: return K(def_class(T("A"), r)); case 5: return K(def_struct(T("A"), r)); case 6: return K(def_union(T("A"), b)); case 7: { Opts_def_enum o = {}; o.body = b; return K(def_enum(T("A"), o)); } case 8: { Opts_def_function o = {}; o.body = b; return K(def_function(T("f"), o)); } default: return K(b); } });
	}
	// scopes within scopes
	for (int depth = 1; depth <= (th ? 8 : 6); depth++) for (int pat = 0; pat < 4; pat++) {
		S want = "int v;"; auto at = [&](int i) { return pat == 3 ? (i >= depth - 2 ? i % 2 ? 1 : 2 : 0) : pat; };   // innermost last
		for (int i = depth; i-- > 0;) want = at(i) == 0 ? "namespace ns { " + want + " }" : S(at(i) == 1 ? "class" : "struct") + " A { " + want + " };";
		one("nested", want, 1, want, [&] { Code c = K(def_variable(def_type(T("int")), T("v"))); for (int i = depth; i-- > 0;) { Opts_def_struct o = {}; if (at(i) == 0) c = K(def_namespace(T("ns"), def_namespace_body(1, c))); else if (at(i) == 1) { o.body = def_class_body(1, c); c = K(def_class(T("A"), o)); } else { o.body = def_struct_body(1, c); c = K(def_struct(T("A"), o)); } } return c; });
	}
	// long texts
	for (int n : { 1, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 20000, 65536, 131070, 131071, 131072, 131073, 200000 }) for (int w = 0; w < 10; w++) {
		S nm = "n"; while ((int)nm.size() < n) nm += (char)('a' + nm.size() % 26); S c = nm; for (size_t i = 7; i < c.size(); i += 97) c[i] = ' '; S want; std::function<Code()> mk;
		switch (w) { case 0: want = "int " + nm + ";"; mk = [&] { return K(def_variable(def_type(T("int")), T(nm.c_str()))); }; break; case 1: want = nm + " v;"; mk = [&] { return K(def_variable(def_type(T(nm.c_str())), T("v"))); }; break;
		case 2: want = "void " + nm + "() { x(); }"; mk = [&] { Opts_def_function o = {}; o.body = def_function_body(1, K(def_execution(T("x();")))); return K(def_function(T(nm.c_str()), o)); }; break; case 3: want = "void f(int " + nm + ");"; mk = [&] { Opts_def_function o = {}; o.params = def_param(def_type(T("int")), T(nm.c_str())); return K(def_function(T("f"), o)); }; break;
		case 4: want = "int v = " + c + ";"; mk = [&] { Opts_def_variable o = {}; o.value = untyped_str(T(c.c_str())); return K(def_variable(def_type(T("int")), T("v"), o)); }; break; case 5: want = "// " + c + "\n"; mk = [&] { return K(def_comment(T(c.c_str()))); }; break;
		case 6: want = "class " + nm + " { int m; };"; mk = [&] { Opts_def_struct o = {}; o.body = rbody(true, 2).make(); return K(def_class(T(nm.c_str()), o)); }; break; case 7: want = "void f() { " + c + " }"; mk = [&] { Opts_def_function o = {}; o.body = def_function_body(1, K(def_execution(T(c.c_str())))); return K(def_function(T("f"), o)); }; break;
		case 8: want = "#define D " + c + "\n"; mk = [&] { Opts_def_define o = {}; o.content = T(c.c_str()); return K(def_define(T("D"), MT_Expression, o)); }; break; default: want = "namespace " + nm + " { int v; }"; mk = [&] { return K(def_namespace(T(nm.c_str()), def_namespace_body(1, K(def_variable(def_type(T("int")), T("v")))))); }; break; }
		one("long", mc::sfmt("%d %d", w, n), 1, want, mk);
	}
}
void explore(bool th)
{
	mc::counter_names[0] = "refused"; build_tables(th);
	functions(th); variables(th); typedefs(); records(th); enums(); scopes(); templates(); members(th); operators(th); texts(th); lists(th);
}
