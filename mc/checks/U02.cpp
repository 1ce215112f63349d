// U02: what a definition or body takes: arguments and entries of a wrong kind are refused, the others kept in order.
#include "kinds.hpp"
using namespace gen; using namespace kinds;
const char* mc::PROPERTY = "U02";
static std::vector<Kind> const& V = all();
// runs make; accept 1: has to give a code of kind `kind` (0: whichever), 0: has to be refused, -1: either
static bool one(S const& key, int accept, int kind, std::function<Code()> make, S* written = nullptr)
{
	if (!mc::begin(key)) return false;
	gram::up(); bool rej = false; S out; int t = 0; bool ok = false;
	bool f = mc::fatal([&] { Code c = make(); if (c.ast == nullptr || c == Code_Invalid || c->Type == CT_Invalid) rej = true; else { t = c->Type; out = mc::SB_(code_to_strbuilder(c)); } });
	mc::transition();
	if (f || rej) { mc::count(0); if (accept == 1) mc::violation(key, "refused; " + w32::std_err.substr(0, 300)); else { ok = true; mc::trace_ok(); } }
	else if (accept == 0) mc::violation(key, "accepted: " + out);
	else if (kind && t != kind) mc::violation(key, mc::sfmt("kind %d instead of %d", t, kind));
	else { ok = true; mc::trace_ok(); }
	mc::state(mc::hash_str(key + (f || rej ? "-" : out))); mc::outcome((f || rej) * 1000 + t);
	if (written) *written = f || rej ? S("(refused)") : out;
	gram::down(); return ok;
}
static S nm(int t) { for (auto& k : V) if (k.t == t) return k.name; return std::to_string(t); }
struct Slot { const char* name; Set ok; int kind; std::function<Code(Code)> make; bool null_ok; Set either; };
static void slots()
{
	auto ty = [] { return def_type(T("int")); };
	Set fb = { CT_Function_Body, CT_Execution, CT_Untyped }, mb = { CT_Function_Body, CT_Untyped };
	std::vector<Slot> s = {
		{ "def_constructor params", { CT_Parameters }, CT_Constructor_Fwd, [](Code c) { Opts_def_constructor o = {}; o.params = as<CodeParams>(c); CodeConstructor r = def_constructor(o); if (r.ast && K(r) != Code_Invalid) r->Name = cache_str(T("A")); return K(r); }, true },
		{ "def_constructor body", mb, CT_Constructor, [](Code c) { Opts_def_constructor o = {}; o.body = c; CodeConstructor r = def_constructor(o); if (r.ast && K(r) != Code_Invalid) r->Name = cache_str(T("A")); return K(r); }, false, { CT_Invalid } },
		{ "def_class attributes", { CT_PlatformAttributes }, CT_Class_Fwd, [](Code c) { Opts_def_struct o = {}; o.attributes = as<CodeAttributes>(c); return K(def_class(T("A"), o)); }, true },
		{ "def_class parent", { CT_Typename, CT_Class, CT_Struct, CT_Untyped }, CT_Class, [](Code c) { Opts_def_struct o = {}; o.parent = as<CodeTypename>(c); o.body = def_body(CT_Class_Body); return K(def_class(T("A"), o)); }, true, { CT_Untyped } },
		{ "def_class body", { CT_Class_Body, CT_Untyped }, CT_Class, [](Code c) { Opts_def_struct o = {}; o.body = as<CodeBody>(c); return K(def_class(T("A"), o)); }, false, { CT_Invalid } },
		{ "def_class specifiers", { CT_Specifiers }, CT_Class_Fwd, [](Code c) { Opts_def_struct o = {}; o.specifiers = as<CodeSpecifiers>(c); return K(def_class(T("A"), o)); }, true },
		{ "def_struct attributes", { CT_PlatformAttributes }, CT_Struct_Fwd, [](Code c) { Opts_def_struct o = {}; o.attributes = as<CodeAttributes>(c); return K(def_struct(T("A"), o)); }, true },
		{ "def_struct parent", { CT_Typename }, CT_Struct, [](Code c) { Opts_def_struct o = {}; o.parent = as<CodeTypename>(c); o.body = def_body(CT_Struct_Body); return K(def_struct(T("A"), o)); }, true },
		{ "def_struct body", { CT_Struct_Body }, CT_Struct, [](Code c) { Opts_def_struct o = {}; o.body = as<CodeBody>(c); return K(def_struct(T("A"), o)); }, false, { CT_Invalid, CT_Untyped } },
		{ "def_struct specifiers", { CT_Specifiers }, CT_Struct_Fwd, [](Code c) { Opts_def_struct o = {}; o.specifiers = as<CodeSpecifiers>(c); return K(def_struct(T("A"), o)); }, true },
		{ "def_define params", { CT_Parameters_Define }, CT_Preprocess_Define, [](Code c) { Opts_def_define o = {}; o.params = as<CodeDefineParams>(c); return K(def_define(T("MX"), MT_Expression, o)); }, true },
		{ "def_destructor specifiers", { CT_Specifiers }, CT_Destructor_Fwd, [](Code c) { Opts_def_destructor o = {}; o.specifiers = as<CodeSpecifiers>(c); CodeDestructor r = def_destructor(o); if (r.ast && K(r) != Code_Invalid) r->Name = cache_str(T("~A")); return K(r); }, true },
		{ "def_destructor body", mb, CT_Destructor, [](Code c) { Opts_def_destructor o = {}; o.body = c; CodeDestructor r = def_destructor(o); if (r.ast && K(r) != Code_Invalid) r->Name = cache_str(T("~A")); return K(r); }, false, { CT_Invalid } },
		{ "def_enum body", { CT_Enum_Body, CT_Untyped }, CT_Enum, [](Code c) { Opts_def_enum o = {}; o.body = as<CodeBody>(c); return K(def_enum(T("A"), o)); }, false, { CT_Invalid } },
		{ "def_enum type", { CT_Typename }, CT_Enum_Fwd, [](Code c) { Opts_def_enum o = {}; o.type = as<CodeTypename>(c); return K(def_enum(T("A"), o)); }, false },
		{ "def_enum attributes", { CT_PlatformAttributes }, CT_Enum_Fwd, [](Code c) { Opts_def_enum o = {}; o.type = def_type(T("int")); o.attributes = as<CodeAttributes>(c); return K(def_enum(T("A"), o)); }, true },
		{ "def_extern_link body", { CT_Extern_Linkage_Body, CT_Untyped }, CT_Extern_Linkage, [](Code c) { return K(def_extern_link(T("C"), as<CodeBody>(c))); }, false },
		{ "def_friend declaration", { CT_Class, CT_Class_Fwd, CT_Struct, CT_Struct_Fwd, CT_Function, CT_Function_Fwd, CT_Operator, CT_Operator_Fwd }, CT_Friend, [](Code c) { return K(def_friend(c)); }, false },
		{ "def_function params", { CT_Parameters }, CT_Function_Fwd, [](Code c) { Opts_def_function o = {}; o.params = as<CodeParams>(c); return K(def_function(T("f"), o)); }, true },
		{ "def_function ret_type", { CT_Typename }, CT_Function_Fwd, [](Code c) { Opts_def_function o = {}; o.ret_type = as<CodeTypename>(c); return K(def_function(T("f"), o)); }, true },
		{ "def_function specs", { CT_Specifiers }, CT_Function_Fwd, [](Code c) { Opts_def_function o = {}; o.specs = as<CodeSpecifiers>(c); return K(def_function(T("f"), o)); }, true },
		{ "def_function attrs", { CT_PlatformAttributes }, CT_Function_Fwd, [](Code c) { Opts_def_function o = {}; o.attrs = as<CodeAttributes>(c); return K(def_function(T("f"), o)); }, true },
		{ "def_function body", fb, CT_Function, [](Code c) { Opts_def_function o = {}; o.body = as<CodeBody>(c); return K(def_function(T("f"), o)); }, false, { CT_Invalid } },
		{ "def_namespace body", { CT_Namespace_Body, CT_Untyped }, CT_Namespace, [](Code c) { return K(def_namespace(T("n"), as<CodeBody>(c))); }, false },
		{ "def_operator params", { CT_Parameters }, 0, [](Code c) { Opts_def_operator o = {}; o.ret_type = def_type(T("T")); o.params = as<CodeParams>(c); Str n = { nullptr, 0 }; return K(def_operator(Op_Add, n, o)); }, false },
		{ "def_operator params of a unary operator", { CT_Parameters }, 0, [](Code c) { Opts_def_operator o = {}; o.ret_type = def_type(T("T")); o.params = as<CodeParams>(c); Str n = { nullptr, 0 }; return K(def_operator(Op_Unary_Minus, n, o)); }, true },
		{ "def_operator params of a call", { CT_Parameters }, 0, [](Code c) { Opts_def_operator o = {}; o.ret_type = def_type(T("T")); o.params = as<CodeParams>(c); Str n = { nullptr, 0 }; return K(def_operator(Op_FunctionCall, n, o)); }, true },
		{ "def_operator params of an indirection", { CT_Parameters }, 0, [](Code c) { Opts_def_operator o = {}; o.ret_type = def_type(T("T")); o.params = as<CodeParams>(c); Str n = { nullptr, 0 }; return K(def_operator(Op_Indirection, n, o)); }, true },
		{ "def_operator ret_type", { CT_Typename }, 0, [](Code c) { Opts_def_operator o = {}; o.ret_type = as<CodeTypename>(c); o.params = def_param(def_type(T("T")), T("b")); Str n = { nullptr, 0 }; return K(def_operator(Op_Add, n, o)); }, false },
		{ "def_operator specifiers", { CT_Specifiers }, 0, [](Code c) { Opts_def_operator o = {}; o.ret_type = def_type(T("T")); o.params = def_param(def_type(T("T")), T("b")); o.specifiers = as<CodeSpecifiers>(c); Str n = { nullptr, 0 }; return K(def_operator(Op_Add, n, o)); }, true },
		{ "def_operator attributes", { CT_PlatformAttributes }, 0, [](Code c) { Opts_def_operator o = {}; o.ret_type = def_type(T("T")); o.params = def_param(def_type(T("T")), T("b")); o.attributes = as<CodeAttributes>(c); Str n = { nullptr, 0 }; return K(def_operator(Op_Add, n, o)); }, true },
		{ "def_operator body", fb, CT_Operator_Member, [](Code c) { Opts_def_operator o = {}; o.ret_type = def_type(T("T")); o.params = def_param(def_type(T("T")), T("b")); o.body = as<CodeBody>(c); Str n = { nullptr, 0 }; return K(def_operator(Op_Add, n, o)); }, false, { CT_Invalid } },
		{ "def_operator_cast type", { CT_Typename }, CT_Operator_Cast_Fwd, [](Code c) { return K(def_operator_cast(as<CodeTypename>(c))); }, false },
		{ "def_operator_cast body", { CT_Function_Body, CT_Execution }, CT_Operator_Cast, [](Code c) { Opts_def_operator_cast o = {}; o.body = as<CodeBody>(c); return K(def_operator_cast(def_type(T("int")), o)); }, false, { CT_Invalid, CT_Untyped } },
		{ "def_operator_cast specs", { CT_Specifiers }, CT_Operator_Cast_Fwd, [](Code c) { Opts_def_operator_cast o = {}; o.specs = as<CodeSpecifiers>(c); return K(def_operator_cast(def_type(T("int")), o)); }, true },
		{ "def_param type", { CT_Typename }, CT_Parameters, [](Code c) { return K(def_param(as<CodeTypename>(c), T("p"))); }, false },
		{ "def_param value", { CT_Untyped }, CT_Parameters, [](Code c) { Opts_def_param o = { c }; return K(def_param(def_type(T("int")), T("p"), o)); }, true },
		{ "def_template params", { CT_Parameters }, CT_Template, [](Code c) { return K(def_template(as<CodeParams>(c), first("struct A { int m; };", CT_Struct))); }, true },
		{ "def_template declaration", { CT_Class, CT_Struct, CT_Function, CT_Variable, CT_Using }, CT_Template, [](Code c) { return K(def_template(def_param(def_type(T("typename")), T("T")), c)); }, false },
		{ "def_type array_expr", { CT_Untyped }, CT_Typename, [](Code c) { Opts_def_type o = {}; o.array_expr = c; return K(def_type(T("t"), o)); }, true },
		{ "def_type specifiers", { CT_Specifiers }, CT_Typename, [](Code c) { Opts_def_type o = {}; o.specifiers = as<CodeSpecifiers>(c); return K(def_type(T("t"), o)); }, true },
		{ "def_type attributes", { CT_PlatformAttributes }, CT_Typename, [](Code c) { Opts_def_type o = {}; o.attributes = as<CodeAttributes>(c); return K(def_type(T("t"), o)); }, true },
		{ "def_typedef type", { CT_Class, CT_Class_Fwd, CT_Enum, CT_Enum_Fwd, CT_Enum_Class, CT_Enum_Class_Fwd, CT_Function_Fwd, CT_Struct, CT_Struct_Fwd, CT_Union, CT_Typename }, CT_Typedef, [](Code c) { return K(def_typedef(T("t"), c)); }, false, { CT_Untyped, CT_Union_Fwd } },
		{ "def_typedef attributes", { CT_PlatformAttributes }, CT_Typedef, [](Code c) { Opts_def_typedef o = {}; o.attributes = as<CodeAttributes>(c); return K(def_typedef(T("t"), K(def_type(T("int"))), o)); }, true },
		{ "def_union body", { CT_Union_Body }, CT_Union, [](Code c) { return K(def_union(T("U"), as<CodeBody>(c))); }, false },
		{ "def_union attributes", { CT_PlatformAttributes }, CT_Union, [](Code c) { Opts_def_union o = {}; o.attributes = as<CodeAttributes>(c); return K(def_union(T("U"), def_body(CT_Union_Body), o)); }, true },
		{ "def_using type", { CT_Typename }, CT_Using, [](Code c) { return K(def_using(T("t"), as<CodeTypename>(c))); }, false },
		{ "def_using attributes", { CT_PlatformAttributes }, CT_Using, [](Code c) { Opts_def_using o = {}; o.attributes = as<CodeAttributes>(c); return K(def_using(T("t"), def_type(T("int")), o)); }, true },
		{ "def_variable type", { CT_Typename }, CT_Variable, [](Code c) { return K(def_variable(as<CodeTypename>(c), T("v"))); }, false },
		{ "def_variable value", { CT_Untyped }, CT_Variable, [](Code c) { Opts_def_variable o = {}; o.value = c; return K(def_variable(def_type(T("int")), T("v"), o)); }, true },
		{ "def_variable specifiers", { CT_Specifiers }, CT_Variable, [](Code c) { Opts_def_variable o = {}; o.specifiers = as<CodeSpecifiers>(c); return K(def_variable(def_type(T("int")), T("v"), o)); }, true },
		{ "def_variable attributes", { CT_PlatformAttributes }, CT_Variable, [](Code c) { Opts_def_variable o = {}; o.attributes = as<CodeAttributes>(c); return K(def_variable(def_type(T("int")), T("v"), o)); }, true },
		{ "def_params first", { CT_Parameters }, CT_Parameters, [](Code c) { return K(def_params(2, as<CodeParams>(c), def_param(def_type(T("int")), T("q")))); }, false },
		{ "def_params second", { CT_Parameters }, CT_Parameters, [](Code c) { return K(def_params(2, def_param(def_type(T("int")), T("q")), as<CodeParams>(c))); }, false },
		{ "def_params_arr first", { CT_Parameters }, CT_Parameters, [](Code c) { CodeParams a[2]; a[0] = as<CodeParams>(c); a[1] = def_param(def_type(T("int")), T("q")); return K(def_params_arr(2, a)); }, false },
		{ "def_params_arr second", { CT_Parameters }, CT_Parameters, [](Code c) { CodeParams a[2]; a[1] = as<CodeParams>(c); a[0] = def_param(def_type(T("int")), T("q")); return K(def_params_arr(2, a)); }, false },
		{ "def_define_params", { CT_Parameters_Define }, CT_Parameters_Define, [](Code c) { return K(def_define_params(1, as<CodeDefineParams>(c))); }, false },
		{ "def_define_params_arr", { CT_Parameters_Define }, CT_Parameters_Define, [](Code c) { CodeDefineParams a[1]; a[0] = as<CodeDefineParams>(c); return K(def_define_params_arr(1, a)); }, false },
	};
	for (auto& x : s) {
		for (auto& k : V) one(S(x.name) + " = " + k.name, x.either.count(k.t) ? -1 : x.ok.count(k.t) ? 1 : 0, x.either.count(k.t) ? 0 : x.kind, [&] { return x.make(k.make()); });
		one(S(x.name) + " = null", x.either.count(CT_Invalid) ? -1 : x.null_ok ? 1 : 0, 0, [&] { Code n = { nullptr }; return x.make(n); });
	}
	// names and texts
	struct N { const char* name; std::function<Code(Str)> make; };
	std::vector<N> ns = {
		{ "def_attributes", [](Str s) { return K(def_attributes(s)); } }, { "def_comment", [](Str s) { return K(def_comment(s)); } }, { "def_class", [](Str s) { return K(def_class(s)); } },
		{ "def_define", [](Str s) { return K(def_define(s, MT_Expression)); } }, { "def_enum", [](Str s) { Opts_def_enum o = {}; o.type = def_type(T("int")); return K(def_enum(s, o)); } }, { "def_execution", [](Str s) { return K(def_execution(s)); } },
		{ "def_extern_link", [](Str s) { return K(def_extern_link(s, def_body(CT_Extern_Linkage_Body))); } }, { "def_function", [](Str s) { return K(def_function(s)); } }, { "def_include", [](Str s) { return K(def_include(s)); } },
		{ "def_module", [](Str s) { return K(def_module(s)); } }, { "def_namespace", [](Str s) { return K(def_namespace(s, def_body(CT_Namespace_Body))); } }, { "def_param", [](Str s) { return K(def_param(def_type(T("int")), s)); } },
		{ "def_pragma", [](Str s) { return K(def_pragma(s)); } }, { "def_preprocess_cond", [](Str s) { return K(def_preprocess_cond(PreprocessCond_If, s)); } }, { "def_type", [](Str s) { return K(def_type(s)); } },
		{ "def_typedef", [](Str s) { return K(def_typedef(s, K(def_type(T("int"))))); } }, { "def_using", [](Str s) { return K(def_using(s, def_type(T("int")))); } }, { "def_using_namespace", [](Str s) { return K(def_using_namespace(s)); } }, { "def_variable", [](Str s) { return K(def_variable(def_type(T("int")), s)); } },
	};
	for (auto& n : ns) {
		one(S(n.name) + " of an empty text", 0, 0, [&] { Str s = { "", 0 }; return n.make(s); });
		one(S(n.name) + " of a null text", 0, 0, [&] { Str s = { nullptr, 0 }; return n.make(s); });
		one(S(n.name) + " of a negative length", 0, 0, [&] { Str s = { "ab", -1 }; return n.make(s); });
		one(S(n.name) + " of a null text with a length", 0, 0, [&] { Str s = { nullptr, 3 }; return n.make(s); });
		one(S(n.name) + " of one letter", 1, 0, [&] { mc::Exact x("x"); return n.make(x.s); });
		one(S(n.name) + " of a part of a text", 1, 0, [&] { mc::Exact x("xyz"); Str s = { x.s.Ptr, 2 }; return n.make(s); });
	}
}
struct Body { const char* name; CodeType t; Set no; Set yes; std::function<CodeBody(s32, Code*)> arr; std::function<CodeBody(s32, Code, Code, Code)> va; };
#define VA(F) [](s32 n, Code a, Code b, Code c) { return n == 1 ? F(1, a) : n == 2 ? F(2, a, b) : F(3, a, b, c); }
static std::vector<Body> bodies()
{
	Set never = { CT_PlatformAttributes, CT_Class_Body, CT_Enum_Body, CT_Function_Body, CT_Namespace_Body, CT_Struct_Body, CT_Parameters, CT_Specifiers, CT_Typename };
	auto with = [](Set a, Set b) { a.insert(b.begin(), b.end()); return a; };
	Set acc = { CT_Access_Private, CT_Access_Protected, CT_Access_Public };
	Set common = { CT_Untyped, CT_NewLine, CT_Comment, CT_Class, CT_Class_Fwd, CT_Struct, CT_Struct_Fwd, CT_Union, CT_Enum, CT_Enum_Fwd, CT_Enum_Class, CT_Enum_Class_Fwd, CT_Preprocess_Define, CT_Preprocess_Include, CT_Preprocess_If, CT_Preprocess_IfDef, CT_Preprocess_IfNotDef, CT_Preprocess_ElIf, CT_Preprocess_Else, CT_Preprocess_EndIf, CT_Preprocess_Pragma, CT_Typedef, CT_Using, CT_Using_Namespace, CT_Variable };
	Set rec_no = with(never, { CT_Extern_Linkage, CT_Global_Body, CT_Namespace, CT_Operator, CT_Operator_Fwd });
	Set rec_yes = with(with(common, acc), { CT_Constructor, CT_Constructor_Fwd, CT_Destructor, CT_Destructor_Fwd, CT_Friend, CT_Function, CT_Function_Fwd, CT_Operator_Member, CT_Operator_Member_Fwd, CT_Operator_Cast, CT_Operator_Cast_Fwd, CT_Template });
	rec_yes.erase(CT_Using_Namespace);
	Set glob_no = with(with(never, acc), { CT_Execution, CT_Friend, CT_Operator_Member, CT_Operator_Member_Fwd });
	Set glob_yes = with(common, { CT_Extern_Linkage, CT_Function, CT_Function_Fwd, CT_Module, CT_Namespace, CT_Operator, CT_Operator_Fwd, CT_Template });
	Set fn_no = with(with(never, acc), { CT_Extern_Linkage, CT_Friend, CT_Global_Body, CT_Namespace, CT_Operator, CT_Operator_Fwd, CT_Operator_Member, CT_Operator_Member_Fwd });
	Set fn_yes = with(common, { CT_Execution });
	Set eu_yes = { CT_Untyped, CT_Comment }, eu_no; for (auto& k : V) if (!eu_yes.count(k.t)) eu_no.insert(k.t);
	return {
		{ "def_class_body", CT_Class_Body, rec_no, rec_yes, [](s32 n, Code* c) { return def_class_body_arr(n, c); }, VA(def_class_body) },
		{ "def_struct_body", CT_Struct_Body, rec_no, rec_yes, [](s32 n, Code* c) { return def_struct_body_arr(n, c); }, VA(def_struct_body) },
		{ "def_global_body", CT_Global_Body, glob_no, glob_yes, [](s32 n, Code* c) { return def_global_body_arr(n, c); }, VA(def_global_body) },
		{ "def_namespace_body", CT_Namespace_Body, glob_no, glob_yes, [](s32 n, Code* c) { return def_namespace_body_arr(n, c); }, VA(def_namespace_body) },
		{ "def_export_body", CT_Export_Body, glob_no, glob_yes, [](s32 n, Code* c) { return def_export_body_arr(n, c); }, VA(def_export_body) },
		{ "def_extern_link_body", CT_Extern_Linkage_Body, glob_no, glob_yes, [](s32 n, Code* c) { return def_extern_link_body_arr(n, c); }, VA(def_extern_link_body) },
		{ "def_function_body", CT_Function_Body, fn_no, fn_yes, [](s32 n, Code* c) { return def_function_body_arr(n, c); }, VA(def_function_body) },
		{ "def_enum_body", CT_Enum_Body, eu_no, eu_yes, [](s32 n, Code* c) { return def_enum_body_arr(n, c); }, VA(def_enum_body) },
		{ "def_union_body", CT_Union_Body, eu_no, eu_yes, [](s32 n, Code* c) { return def_union_body_arr(n, c); }, VA(def_union_body) },
	};
}
static bool merged_kind(int t) { return t == CT_Class_Body || t == CT_Enum_Body || t == CT_Extern_Linkage_Body || t == CT_Function_Body || t == CT_Global_Body || t == CT_Namespace_Body || t == CT_Struct_Body || t == CT_Union_Body; }
static bool merged(Code c) { return code_is_body(c) && c->Type != CT_Export_Body; }
// the entries a body has, and that its chain, count and parents are consistent
static S chain(CodeBody b, std::vector<Code>& e)
{
	s32 n = 0; Code prev = { nullptr };
	for (Code c = b->Front; c.ast; c = c->Next) { if (++n > b->NumEntries) return "more entries in the chain than counted"; if (c->Prev.ast != prev.ast) return "an entry's Prev is not the one before it"; if (c->Parent.ast != K(b).ast) return "an entry has another parent"; e.push_back(c); prev = c; }
	if (n != b->NumEntries) return mc::sfmt("%d entries in the chain, %d counted", n, b->NumEntries);
	if (b->Back.ast != prev.ast) return "Back is not the last entry";
	s32 m = 0; for (Code c = begin_CodeBody(b); c != end_CodeBody(b); c = next_CodeBody(b, c)) m++; if (m != n) return "iterating gives another number of entries";
	return "";
}
static void body_cases(bool th)
{
	std::vector<Body> bs = bodies();
	for (auto& b : bs) {
		auto acc = [&](int t) { return b.no.count(t) ? 0 : b.yes.count(t) ? 1 : -1; };
		one(S(b.name) + " with num 0", 0, 0, [&] { Code c = untyped_str(T("x")); return K(b.arr(0, &c)); });
		one(S(b.name) + " with num -1", 0, 0, [&] { Code c = untyped_str(T("x")); return K(b.arr(-1, &c)); });
		one(S(b.name) + " with a null array", 0, 0, [&] { return K(b.arr(1, nullptr)); });
		one(S(b.name) + " with a null entry", 0, 0, [&] { Code c[2] = { untyped_str(T("x")), Code{ nullptr } }; return K(b.arr(2, c)); });
		one(S(b.name) + "(va) with a null entry", 0, 0, [&] { return K(b.va(2, untyped_str(T("x")), Code{ nullptr }, Code{ nullptr })); });
		one(S("def_body for ") + b.name, 1, b.t, [&] { return K(def_body(b.t)); });
		// every kind as an entry, alone and on either side of text; array, varargs, and appended then validated
		for (auto& k : V) for (int pos = 0; pos < 3; pos++) {
			int a = acc(k.t); S w[3];
			auto list = [&](Code* c) { int n = 0; if (pos == 1) c[n++] = untyped_str(T("t1\n")); c[n++] = k.make(); if (pos == 2) c[n++] = untyped_str(T("t2\n")); return n; };
			S key = S(b.name) + (pos == 0 ? " of " : pos == 1 ? " of text and " : " with text behind ") + k.name;
			auto check = [&](CodeBody r, Code* c, int n) -> Code {
				if (!r.ast || K(r) == Code_Invalid) return K(r);
				std::vector<Code> e; S err = chain(r, e); S want; int wn = 0; bool free_n = false;
				for (int i = 0; i < n; i++) { if (c[i]->Type == CT_Export_Body) { want += mc::SB_(code_to_strbuilder(c[i])); free_n = true; } else if (merged(c[i])) { CodeBody in = as<CodeBody>(c[i]); for (Code x = in->Front; x.ast; x = x->Next) { want += mc::SB_(code_to_strbuilder(x)); wn++; } } else { want += mc::SB_(code_to_strbuilder(c[i])); wn++; } }
				if (err.empty() && !free_n && r->NumEntries != wn) err = mc::sfmt("%d entries instead of %d", r->NumEntries, wn);
				S got = mc::SB_(body_to_strbuilder(r)); if (b.t == CT_Export_Body) { if (got != "export\n{\n" + want + "\n}\n" && ref::toks(got) != ref::toks("export { " + want + " }")) err = "written as " + got; } else if (err.empty() && got != want) err = "written as " + got + " instead of " + want;
				if (!err.empty()) mc::violation(mc::cur_desc, err); return K(r); };
			one(key + " (array)", a, a < 0 ? 0 : b.t, [&] { Code c[3], d[3]; int n = list(c); memcpy((void*)d, (void*)c, sizeof c); return check(b.arr(n, c), d, n); }, &w[0]);
			one(key + " (arguments)", a, a < 0 ? 0 : b.t, [&] { Code c[3]; int n = list(c); return check(b.va(n, c[0], c[1], c[2]), c, n); }, &w[1]);
			if (!merged_kind(k.t)) {
				if (!mc::begin(key + " (appended and validated)")) continue;
				gram::up(); bool v = false; S err;
				bool f = mc::fatal([&] { Code c[3]; int n = list(c); CodeBody r = def_body(b.t); for (int i = 0; i < n; i++) body_append(r, c[i]); std::vector<Code> e; err = chain(r, e); v = code_validate_body(K(r)); });
				mc::transition(); if (f) v = false;
				if (!err.empty()) mc::violation(mc::cur_desc, err); else if (a >= 0 && v != (a == 1)) mc::violation(mc::cur_desc, v ? "validates" : "does not validate: " + w32::std_err.substr(0, 200)); else { mc::trace_ok(); mc::state(mc::hash_str(mc::cur_desc)); }
				gram::down();
			}
		}
		// entries of another body are copied, wherever they are put: neither body loses or gains by it
		for (int n = 1; n <= 3; n++) for (int ix = 0, N = n == 1 ? 4 : n == 2 ? 16 : 64; ix < N; ix++) for (int form = 0; form < 3; form++) {
			int c4[3] = { ix % 4, ix / 4 % 4, ix / 16 }; S key = S(b.name) + " of"; for (int i = 0; i < n; i++) key += c4[i] < 3 ? mc::sfmt(" entry %d", c4[i]) : S(" new text");
			if (!mc::begin(key + (form == 0 ? " (array)" : form == 1 ? " (arguments)" : " (appended)"))) continue;
			gram::up(); S err;
			bool f = mc::fatal([&] {
				Code t[3] = { untyped_str(T("s0\n")), untyped_str(T("s1\n")), untyped_str(T("s2\n")) }; CodeBody src = b.arr(3, t); S before = mc::SB_(code_to_strbuilder(K(src)));
				Code c[3], d[3]; S want; for (int i = 0; i < n; i++) { c[i] = c4[i] < 3 ? t[c4[i]] : untyped_str(T("n\n")); want += c4[i] < 3 ? mc::sfmt("s%d\n", c4[i]) : S("n\n"); } memcpy((void*)d, (void*)c, sizeof c);
				CodeBody r; if (form == 0) r = b.arr(n, c); else if (form == 1) r = b.va(n, c[0], c[1], c[2]); else { r = def_body(b.t); for (int i = 0; i < n; i++) body_append(r, c[i]); }
				std::vector<Code> e, e2; err = chain(r, e); if (!err.empty()) { err = "the new body: " + err; return; }
				if ((int)e.size() != n) { err = mc::sfmt("%d entries", (int)e.size()); return; }
				S got; for (auto& x : e) { got += mc::SB_(code_to_strbuilder(x)); for (auto& y : t) if (x.ast == y.ast) err = "an entry is in both bodies"; } if (err.empty() && got != want) err = "the new body: " + got;
				if (err.empty()) { err = chain(src, e2); if (err.empty() && (e2.size() != 3 || mc::SB_(code_to_strbuilder(K(src))) != before)) err = "now written as " + mc::SB_(code_to_strbuilder(K(src))); if (!err.empty()) err = "the body they are from: " + err; } });
			mc::transition(); if (f) err = "refused"; if (!err.empty()) mc::violation(mc::cur_desc, err); else { mc::trace_ok(); mc::state(mc::hash_str(mc::cur_desc)); }
			gram::down();
		}
		one(S("code_validate_body of an empty ") + b.name, 1, 0, [&] { CodeBody r = def_body(b.t); return code_validate_body(K(r)) ? K(r) : Code_Invalid; });
	}
	for (auto& k : V) { bool is_body = k.t == CT_Class_Body || k.t == CT_Enum_Body || k.t == CT_Export_Body || k.t == CT_Extern_Linkage_Body || k.t == CT_Function_Body || k.t == CT_Global_Body || k.t == CT_Namespace_Body || k.t == CT_Struct_Body || k.t == CT_Union_Body;
		one(S("def_body of ") + k.name, is_body ? 1 : 0, is_body ? k.t : 0, [&] { return K(def_body(k.t)); });
		one(S("code_is_body of ") + k.name, is_body ? 1 : 0, 0, [&] { Code c = k.make(); return code_is_body(c) ? c : Code_Invalid; });
		one(S("the sample of ") + k.name, 1, k.t, [&] { return k.make(); });
		if (!is_body) one(S("code_validate_body of ") + k.name, 0, 0, [&] { Code c = k.make(); return code_validate_body(c) ? c : Code_Invalid; });
	}
}
void explore(bool th) { mc::counter_names[0] = "refused"; slots(); body_cases(th); }
