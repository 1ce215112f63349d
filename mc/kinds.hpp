// One real code of every kind there is, and the names of the kinds.
#pragma once
#include "gram.hpp"
#include <functional>
namespace kinds {
using namespace gen;
typedef std::string S;
static Str T(const char* s) { Str r = { s, (ssize)strlen(s) }; return r; }
template <class C> static Code K(C c) { return Code{ (AST*)c.ast }; }
template <class C> static C as(Code c) { C r; memcpy((void*)&r, (void*)&c, sizeof r); return r; }
static Code first(const char* src, CodeType want)   // the first entry of that kind in a parsed text
{
	std::function<Code(Code)> find = [&](Code c) -> Code {
		if (!c.ast) return Code{ nullptr };
		if (c->Type == want) return c;
		if (code_is_body(c)) { CodeBody b = as<CodeBody>(c); s32 n = b->NumEntries; for (Code e = b->Front; n-- > 0; e = e->Next) { Code r = find(e); if (r.ast) return r; } return Code{ nullptr }; }
		switch (c->Type) { case CT_Class: case CT_Struct: case CT_Namespace: case CT_Extern_Linkage: case CT_Enum: case CT_Union: case CT_Function: return find(c->Body); default: return Code{ nullptr }; } };
	CodeBody b = parse_global_body(T(src)); return find(K(b));
}
struct Kind { CodeType t; const char* name; std::function<Code()> make; };
static std::vector<Kind> const& all()
{
	static std::vector<Kind> v; if (!v.empty()) return v;
	auto var = [] { return K(def_variable(def_type(T("int")), T("v"))); };
	auto P = [](const char* s, CodeType t) { return [s, t] { Code c = first(s, t); if (c.ast) c->Parent = Code{ nullptr }, c->Next = Code{ nullptr }, c->Prev = Code{ nullptr }; return c; }; };
	#define KD(T_, ...) v.push_back({ CT_##T_, #T_, __VA_ARGS__ })
	KD(Untyped, [] { return untyped_str(T("int u;\n")); });
	KD(NewLine, [] { return fmt_newline; });
	KD(Comment, [] { return K(def_comment(T("c"))); });
	KD(Access_Private, [] { return access_private; }); KD(Access_Protected, [] { return access_protected; }); KD(Access_Public, [] { return access_public; });
	KD(PlatformAttributes, [] { return K(def_attributes(T("[[a]]"))); });
	KD(Class, P("class A { int m; };", CT_Class)); KD(Class_Fwd, [] { return K(def_class(T("A"))); });
	KD(Class_Body, [var] { return K(def_class_body(1, var())); });
	KD(Constructor, [] { Opts_def_constructor o = {}; o.body = K(def_execution(T("x();"))); o.body = untyped_str(T("x();")); CodeConstructor c = def_constructor(o); c->Name = cache_str(T("A")); return K(c); });
	KD(Constructor_Fwd, [] { CodeConstructor c = def_constructor(); c->Name = cache_str(T("A")); return K(c); });
	KD(Destructor, [] { Opts_def_destructor o = {}; o.body = untyped_str(T("x();")); CodeDestructor c = def_destructor(o); c->Name = cache_str(T("~A")); return K(c); });
	KD(Destructor_Fwd, [] { CodeDestructor c = def_destructor(); c->Name = cache_str(T("~A")); return K(c); });
	KD(Enum, P("enum E { X };", CT_Enum)); KD(Enum_Fwd, P("enum E : int;", CT_Enum_Fwd)); KD(Enum_Body, [] { return K(def_enum_body(1, untyped_str(T("X,")))); });
	KD(Enum_Class, P("enum class E { X };", CT_Enum_Class)); KD(Enum_Class_Fwd, P("enum class E : int;", CT_Enum_Class_Fwd));
	KD(Execution, [] { return K(def_execution(T("x();"))); });
	KD(Export_Body, [var] { return K(def_export_body(1, var())); });
	KD(Extern_Linkage, P("extern \"C\" { int v; }", CT_Extern_Linkage)); KD(Extern_Linkage_Body, [var] { return K(def_extern_link_body(1, var())); });
	KD(Friend, [] { return K(def_friend(K(def_class(T("A"))))); });
	KD(Function, P("void f() { x(); }", CT_Function)); KD(Function_Fwd, [] { return K(def_function(T("f"))); }); KD(Function_Body, [] { return K(def_function_body(1, K(def_execution(T("x();"))))); });
	KD(Global_Body, [var] { return K(def_global_body(1, var())); });
	KD(Module, [] { return K(def_module(T("m"))); });
	KD(Namespace, P("namespace n { int v; }", CT_Namespace)); KD(Namespace_Body, [var] { return K(def_namespace_body(1, var())); });
	KD(Operator, P("T operator+(T a, T b) { return a; }", CT_Operator)); KD(Operator_Fwd, P("T operator+(T a, T b);", CT_Operator_Fwd));
	KD(Operator_Member, P("class A { T operator+(T b) { return b; } };", CT_Operator_Member)); KD(Operator_Member_Fwd, P("class A { T operator+(T b); };", CT_Operator_Member_Fwd));
	KD(Operator_Cast, P("class A { operator int() { return 1; } };", CT_Operator_Cast)); KD(Operator_Cast_Fwd, P("class A { operator int(); };", CT_Operator_Cast_Fwd));
	KD(Parameters, [] { return K(def_param(def_type(T("int")), T("p"))); });
	KD(Parameters_Define, [] { CodeDefine d = parse_define(T("#define MD(p) x\n")); Code c = K(d->Params); return c; });
	KD(Preprocess_Define, [] { Opts_def_define o = {}; o.content = T("1"); return K(def_define(T("MX"), MT_Expression, o)); });
	KD(Preprocess_Include, [] { return K(def_include(T("x.h"))); });
	KD(Preprocess_If, [] { return K(def_preprocess_cond(PreprocessCond_If, T("X"))); }); KD(Preprocess_IfDef, [] { return K(def_preprocess_cond(PreprocessCond_IfDef, T("X"))); });
	KD(Preprocess_IfNotDef, [] { return K(def_preprocess_cond(PreprocessCond_IfNotDef, T("X"))); }); KD(Preprocess_ElIf, [] { return K(def_preprocess_cond(PreprocessCond_ElIf, T("X"))); });
	KD(Preprocess_Else, [] { return K(preprocess_else); }); KD(Preprocess_EndIf, [] { return K(preprocess_endif); });
	KD(Preprocess_Pragma, [] { return K(def_pragma(T("p"))); });
	KD(Specifiers, [] { return K(def_specifier(Spec_Inline)); });
	KD(Struct, P("struct A { int m; };", CT_Struct)); KD(Struct_Fwd, [] { return K(def_struct(T("A"))); }); KD(Struct_Body, [var] { return K(def_struct_body(1, var())); });
	KD(Template, P("template<typename X> struct A { X m; };", CT_Template));
	KD(Typedef, P("typedef int I;", CT_Typedef)); KD(Typename, [] { return K(def_type(T("int"))); });
	KD(Union, P("union U { int a; };", CT_Union)); KD(Union_Fwd, P("union U;", CT_Union_Fwd)); KD(Union_Body, [] { return K(def_union_body(1, untyped_str(T("int a;\n")))); });
	KD(Using, P("using I = int;", CT_Using)); KD(Using_Namespace, [] { return K(def_using_namespace(T("n"))); });
	KD(Variable, var);
	#undef KD
	return v;
}
typedef std::set<int> Set;
}
