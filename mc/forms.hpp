// What the serializer of a code's own kind writes, for comparison with what the general one writes.
#pragma once
#include "gram.hpp"
namespace forms {
using namespace gen;
typedef std::string S;
template <class C> static C as(Code c) { C r; memcpy((void*)&r, (void*)&c, sizeof r); return r; }
template <class C> static S member(Code c) { return mc::SB_(as<C>(c).to_strbuilder()); }
static bool own(Code c, S& free_fn, S& mem)
{
	switch (c->Type) {
	#define F(fn, T) free_fn = mc::SB_(fn(as<T>(c))); mem = member<T>(c); return true
	case CT_Class: case CT_Class_Fwd: F(class_to_strbuilder, CodeClass);
	case CT_Struct: case CT_Struct_Fwd: F(struct_to_strbuilder, CodeStruct);
	case CT_Union: case CT_Union_Fwd: F(union_to_strbuilder, CodeUnion);
	case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd: F(enum_to_strbuilder, CodeEnum);
	case CT_Constructor: case CT_Constructor_Fwd: F(constructor_to_strbuilder, CodeConstructor);
	case CT_Destructor: case CT_Destructor_Fwd: F(destructor_to_strbuilder, CodeDestructor);
	case CT_Function: case CT_Function_Fwd: F(fn_to_strbuilder, CodeFn);
	case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: F(code_op_to_strbuilder, CodeOperator);
	case CT_Operator_Cast: case CT_Operator_Cast_Fwd: F(opcast_to_strbuilder, CodeOpCast);
	case CT_Namespace: F(namespace_to_strbuilder, CodeNS);
	case CT_Friend: F(friend_to_strbuilder, CodeFriend);
	case CT_Module: F(module_to_strbuilder, CodeModule);
	case CT_Parameters: F(params_to_strbuilder, CodeParams);
	case CT_Parameters_Define: F(define_params_to_strbuilder, CodeDefineParams);
	case CT_Preprocess_Define: F(define_to_strbuilder, CodeDefine);
	case CT_Preprocess_Include: F(include_to_strbuilder, CodeInclude);
	case CT_Preprocess_Pragma: F(pragma_to_strbuilder, CodePragma);
	case CT_Preprocess_If: case CT_Preprocess_IfDef: case CT_Preprocess_IfNotDef: case CT_Preprocess_ElIf: case CT_Preprocess_Else: case CT_Preprocess_EndIf: F(preprocess_to_strbuilder, CodePreprocessCond);
	case CT_Specifiers: F(specifiers_to_strbuilder, CodeSpecifiers);
	case CT_Template: F(template_to_strbuilder, CodeTemplate);
	case CT_Typedef: F(typedef_to_strbuilder, CodeTypedef);
	case CT_Typename: F(typename_to_strbuilder, CodeTypename);
	case CT_Using: case CT_Using_Namespace: F(using_to_strbuilder, CodeUsing);
	case CT_Variable: F(var_to_strbuilder, CodeVar);
	case CT_PlatformAttributes: F(attributes_to_strbuilder, CodeAttributes);
	case CT_Comment: F(comment_to_strbuilder, CodeComment);
	case CT_Execution: F(exec_to_strbuilder, CodeExec);
	case CT_Export_Body: case CT_Class_Body: case CT_Struct_Body: case CT_Union_Body: case CT_Enum_Body: case CT_Extern_Linkage_Body: case CT_Function_Body: case CT_Global_Body: case CT_Namespace_Body: F(body_to_strbuilder, CodeBody);
	#undef F
	case CT_Extern_Linkage: { StrBuilder r = strbuilder_make_reserve(_ctx->Allocator_Temp, 8); as<CodeExtern>(c).to_strbuilder(r); free_fn = mem = mc::SB_(r); return true; }
	default: return false; }
}
// The first difference in a code and what is within it, empty if there is none
static S diff(Code c)
{
	if (!c.ast) return S();
	S all = mc::SB_(code_to_strbuilder(c)), a, b;
	if (own(c, a, b)) { S k = mc::S_(code_type_str(c)); if (a != all) return "the serializer of " + k + " writes: " + a + "\ninstead of: " + all; if (b != all) return "to_strbuilder of " + k + " writes: " + b + "\ninstead of: " + all; }
	if (code_is_body(c)) { CodeBody body = as<CodeBody>(c); s32 n = body->NumEntries; for (Code e = body->Front; n-- > 0 && e.ast; e = e->Next) { S d = diff(e); if (!d.empty()) return d; } return S(); }
	switch (c->Type) { case CT_Class: case CT_Struct: case CT_Union: case CT_Namespace: case CT_Extern_Linkage: case CT_Enum: case CT_Enum_Class: case CT_Function: case CT_Constructor: case CT_Destructor: case CT_Operator: case CT_Operator_Member: case CT_Operator_Cast: return diff(c->Body); case CT_Template: case CT_Friend: return diff(c->Declaration); default: return S(); }
}
}
