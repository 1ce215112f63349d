/* Definitions written through the upfront interface: the same calls in C++ and in C, with the arguments chosen by k. */
#ifdef LIBC
#	define OPTS(T, ...) __VA_ARGS__
#	define ARGS(...) args(__VA_ARGS__)
#else
#	define OPTS(T, ...) gen::Opts_def_##T { __VA_ARGS__ }
#	define ARGS(...) args(__VA_ARGS__)
#endif
#ifdef LIBC
#	define NUM(a) gen_array_num(a)
#else
#	define NUM(a) gen::array_get_header(a)->Num
#endif
#ifdef LIBC
#	define NIL(T) NULL
#else
#	define NIL(T) gen::T { nullptr }
#endif
static long b_k, b_all;
static int  pick(int n) { int r = (int)(b_k % n); b_k /= n; b_all *= n; return r; }
#ifdef LIBC
#	define ARRAY_EXPR gen_array_expr
#	define t_int      gen_t_int
#	define t_s32      gen_t_s32
#	define t_class    gen_t_class
#	define t_typename gen_t_typename
#else
#	define ARRAY_EXPR array_expr
#endif
#define S(x) lib_str(x)
static N(Code) b_parse(int which, const char* s) { return lib_parse(which, lib_str(s)); }
static N(Str) b_name(int n) { return n == 0 ? S("Alpha") : n == 1 ? S("b") : S("Outer::Inner"); }
static N(CodeTypename) b_type(int n)
{
	N(Specifier) two[2]; N(CodeTypename) none = NIL(CodeTypename);
	switch (n) {
		case 0: return none;
		case 1: return t_int;
		case 2: return N(def_type)(S("Foo"), OPTS(type, .specifiers = N(def_specifier)(Spec_Ptr)));
		case 3: two[0] = Spec_Const; two[1] = Spec_Ref; return N(def_type)(S("Bar"), OPTS(type, .specifiers = N(def_specifiers_arr)(2, two)));
		case 4: return N(def_type)(S("Tag"), OPTS(type, .type_tag = Tag_Struct));
		case 5: return N(def_type)(S("Att"), OPTS(type, .attributes = N(def_attributes)(S("[[att]]"))));
		case 6: return N(def_type)(S("Arr"), OPTS(type, .ARRAY_EXPR = N(untyped_str)(S("[4]"))));
		default: return (N(CodeTypename))N(parse_type)(S("unsigned long const*"));
	}
}
static N(CodeAttributes) b_attr(int n) { N(CodeAttributes) none = NIL(CodeAttributes); return n ? N(def_attributes)(S(n == 1 ? "[[nodiscard]]" : "__attribute__((cold))")) : none; }
static N(CodeSpecifiers) b_specs(int n, N(Specifier) a, N(Specifier) b)
{
	N(CodeSpecifiers) none = NIL(CodeSpecifiers);
	switch (n) { case 0: return none; case 1: return N(def_specifier)(a); case 2: return N(def_specifier)(b); default: return N(def_specifiers)(2, a, b); }
}
static N(CodeParams) b_param(int n, const char* name) { return n == 1 ? N(def_param)(b_type(2), S(name), OPTS(param, .value = N(untyped_str)(S("nullptr")))) : N(def_param)(t_int, S(name)
#ifndef LIBC
	, gen::Opts_def_param {}
#endif
	); }
static N(CodeParams) b_params(int n)
{
	N(CodeParams) none = NIL(CodeParams), arr[3];
	switch (n) {
		case 0: return none;
		case 1: return b_param(0, "a");
		case 2: return b_param(1, "b");
		case 3: return N(def_params)(2, b_param(0, "a"), b_param(1, "b"));
		case 4: arr[0] = b_param(0, "x"); arr[1] = b_param(0, "y"); arr[2] = N(def_param)(b_type(3), S("z"), OPTS(param, .value = N(untyped_str)(S("4")))); return N(def_params_arr)(3, arr);
		case 5: return (N(CodeParams))N(def_params)(ARGS(b_param(0, "p"), b_param(0, "q"), b_param(1, "r")));
		default: return N(parse_function)(S("void f( unsigned x, Foo const& y = Foo() );"))->Params;
	}
}
static N(CodeBody) b_fnbody(int n)
{
	N(CodeBody) none = NIL(CodeBody);
	switch (n) { case 0: return none; case 1: return N(def_function_body)(1, CODE(N(def_execution)(S("return 1;")))); default: return N(def_function_body)(ARGS(CODE(N(def_execution)(S("int x = 1;"))), CODE(N(def_comment)(S("why"))), CODE(N(untyped_str)(S("return x;\n"))))); }
}
static N(CodeTypename) b_ifaces[2];
#define CLASSLIKE(X, BODY, BODYARR) \
static N(Code) b_##X(void) \
{ \
	int bo = pick(4), pa = pick(3), ac = pick(3), at = pick(2), in = pick(3), sp = pick(2), mf = pick(2), na = pick(2); \
	N(CodeBody) body = NIL(CodeBody); N(Code) two[2]; N(CodeSpecifiers) fin = NIL(CodeSpecifiers); N(CodeTypename) parent = NIL(CodeTypename); \
	if (bo == 1) body = N(BODY)(1, b_parse(15, "int field;")); \
	if (bo == 2) { two[0] = b_parse(8, "void method() const;"); two[1] = b_parse(15, "static int count;"); body = N(BODYARR)(2, two); } \
	if (bo == 3) body = N(BODY)(ARGS(access_public, b_parse(8, "int get() const;"), N(fmt_newline), access_private, b_parse(15, "Foo* value;"))); \
	if (pa) parent = pa == 1 ? N(def_type)(S("Base"), OPTS(type, .type_tag = Tag_None)) : (N(CodeTypename))N(parse_type)(S("Base<int>")); \
	b_ifaces[0] = N(def_type)(S("IOne"), OPTS(type, .type_tag = Tag_None)); b_ifaces[1] = N(def_type)(S("ITwo"), OPTS(type, .type_tag = Tag_None)); \
	if (sp) fin = N(def_specifier)(Spec_Final); \
	return CODE(N(def_##X)(b_name(na), OPTS(struct, .body = body, .parent = parent, .parent_access = ac == 0 ? AccessSpec_Default : ac == 1 ? AccessSpec_Public : AccessSpec_Protected, .attributes = b_attr(at), .interfaces = in ? b_ifaces : NULL, .num_interfaces = in, .specifiers = fin, .mflags = mf ? ModuleFlag_Export : ModuleFlag_None))); \
}
#ifdef LIBC
#	define access_public  CODE(gen_access_public)
#	define access_private CODE(gen_access_private)
#else
#	define access_public  CODE(gen::access_public)
#	define access_private CODE(gen::access_private)
#endif
CLASSLIKE(class, def_class_body, def_class_body_arr)
CLASSLIKE(struct, def_struct_body, def_struct_body_arr)
#undef access_public
#undef access_private
static N(Code) b_function(void)
{
	int pa = pick(7), re = pick(5), bo = pick(3), sp = pick(4), at = pick(2), mf = pick(2);
	return CODE(N(def_function)(S("run"), OPTS(function, .params = b_params(pa), .ret_type = b_type(re), .body = b_fnbody(bo), .specs = b_specs(sp, Spec_Static, Spec_Inline), .attrs = b_attr(at), .mflags = mf ? ModuleFlag_Export : ModuleFlag_None)));
}
static N(Code) b_variable(void)
{
	int ty = pick(8), va = pick(3), sp = pick(4), at = pick(3), mf = pick(2), na = pick(2); N(Code) value = NIL(Code);
	if (va == 1) value = N(untyped_str)(S("1 + 2")); if (va == 2) value = CODE(N(def_execution)(S("{ 1, 2 }")));
	return CODE(N(def_variable)(b_type(ty), b_name(na), OPTS(variable, .value = value, .specifiers = b_specs(sp, Spec_Static, Spec_Constexpr), .attributes = b_attr(at), .mflags = mf ? ModuleFlag_Export : ModuleFlag_None)));
}
static N(Code) b_enum(void)
{
	int bo = pick(3), ty = pick(2), cl = pick(2), at = pick(2), mf = pick(2), ma = pick(2); N(CodeBody) body = NIL(CodeBody); N(CodeTypename) under = NIL(CodeTypename); N(Code) mac = NIL(Code);
	if (bo == 1) body = N(def_enum_body)(1, N(untyped_str)(S("One,\n"))); if (bo == 2) body = N(def_enum_body)(ARGS(N(untyped_str)(S("One = 1,")), CODE(N(def_comment)(S("second"))), N(untyped_str)(S("Two"))));
	if (ty) under = t_s32; if (ma) { mac = N(untyped_str)(S("EMacro")); }
	return CODE(N(def_enum)(S("Color"), OPTS(enum, .body = body, .type = under, .specifier = cl ? EnumDecl_Class : EnumDecl_Regular, .attributes = b_attr(at), .mflags = mf ? ModuleFlag_Export : ModuleFlag_None, .type_macro = mac)));
}
static N(Code) b_union(void)
{
	int bo = pick(2), at = pick(3), mf = pick(2), na = pick(3); N(CodeBody) body = bo ? N(def_union_body)(1, b_parse(15, "int i;")) : N(def_union_body)(ARGS(b_parse(15, "int i;"), b_parse(15, "float f;"), b_parse(2, "struct { int x; };")));
	return CODE(N(def_union)(na == 2 ? S("") : b_name(na), body, OPTS(union, .attributes = b_attr(at), .mflags = mf ? ModuleFlag_Export : ModuleFlag_None)));
}
static N(Code) b_namespace(void)
{
	int bo = pick(3), mf = pick(2), na = pick(3); N(CodeBody) body; N(Code) three[3];
	three[0] = b_parse(8, "void f();"); three[1] = b_parse(15, "extern int v;"); three[2] = CODE(N(def_include)(S("a.h"), OPTS(include, .foreign = 1)));
	body = bo == 0 ? N(def_namespace_body)(1, three[0]) : bo == 1 ? N(def_namespace_body_arr)(3, three) : N(def_namespace_body)(ARGS(three[2], N(fmt_newline), three[1], three[0]));
	return CODE(N(def_namespace)(b_name(na), body, OPTS(namespace, .mflags = mf ? ModuleFlag_Export : ModuleFlag_None)));
}
static N(Code) b_typedef(void)
{
	int ty = pick(9), at = pick(2), mf = pick(2); N(Code) t = ty < 8 ? CODE(b_type(ty)) : CODE(b_parse(2, "struct { int i; };"));
	return CODE(N(def_typedef)(S("Alias"), t, OPTS(typedef, .attributes = b_attr(at), .mflags = mf ? ModuleFlag_Export : ModuleFlag_None)));
}
static N(Code) b_using(void)
{
	int ty = pick(8), at = pick(2), mf = pick(2), ns = pick(2);
	if (ns) return CODE(N(def_using_namespace)(b_name(ty % 3)));
	return CODE(N(def_using)(S("Alias"), b_type(ty), OPTS(using, .attributes = b_attr(at), .mflags = mf ? ModuleFlag_Export : ModuleFlag_None)));
}
static N(Code) b_operator(void)
{
	static const N(Operator) ops[] = { Op_Add, Op_Subtract, Op_Multiply, Op_LNot, Op_Assign, Op_LEqual, Op_Subscript, Op_FunctionCall, Op_Increment, Op_MemberOfPointer, Op_New, Op_Delete, Op_Comma, Op_Invalid };
	int op = pick(14), pa = pick(4), re = pick(3), bo = pick(2), sp = pick(4), ns = pick(2), at = pick(2);
	return CODE(N(def_operator)(ops[op], ns ? S("Space") : S(""), OPTS(operator, .params = b_params(pa), .ret_type = b_type(re), .body = b_fnbody(bo), .specifiers = b_specs(sp, Spec_Const, Spec_Inline), .attributes = b_attr(at))));
}
static N(Code) b_cast(void)
{
	int ty = pick(8), bo = pick(3), sp = pick(2);
	return CODE(N(def_operator_cast)(b_type(ty), OPTS(operator_cast, .body = b_fnbody(bo), .specs = b_specs(sp, Spec_Const, Spec_Explicit))));
}
static N(Code) b_structors(void)
{
	int what = pick(2), pa = pick(4), in = pick(2), bo = pick(3), sp = pick(3), host = pick(3); N(Code) init = NIL(Code); N(CodeSpecifiers) specs = NIL(CodeSpecifiers); N(Code) c; N(CodeBody) body; N(Code) none = NIL(Code);
	if (in) init = N(untyped_str)(S("a(1), b(2)")); if (sp) specs = N(def_specifier)(sp == 1 ? Spec_Virtual : Spec_Pure);
	if (what) c = CODE(N(def_destructor)(OPTS(destructor, .body = bo ? CODE(b_fnbody(bo)) : none, .specifiers = specs)));
	else c = CODE(N(def_constructor)(OPTS(constructor, .params = b_params(pa), .initializer_list = init, .body = bo ? CODE(b_fnbody(bo)) : none)));
	if (!host) return c;
	body = host == 1 ? N(def_class_body)(1, c) : N(def_struct_body)(1, c);
	return host == 1 ? CODE(N(def_class)(S("Host"), OPTS(struct, .body = body))) : CODE(N(def_struct)(S("Host"), OPTS(struct, .body = body)));
}
static N(Code) b_template(void)
{
	int pa = pick(3), de = pick(4), mf = pick(2); N(CodeParams) p = pa == 0 ? N(parse_template)(S("template< typename T > struct W;"))->Params : pa == 1 ? N(def_param)(t_class, S("T"), OPTS(param, .value = NIL(Code))) : N(def_params)(2, N(def_param)(t_typename, S("T"), OPTS(param, .value = N(untyped_str)(S("int")))), b_param(0, "N"));
	N(Code) d = de == 0 ? b_parse(2, "struct S { T t; };") : de == 1 ? b_parse(8, "T get( T t );") : de == 2 ? b_parse(15, "T value = T();") : b_parse(14, "using A = B<T>;");
	return CODE(N(def_template)(p, d, OPTS(template, .mflags = mf ? ModuleFlag_Export : ModuleFlag_None)));
}
static N(Code) b_type_of(void)
{
	int na = pick(3), tag = pick(4), ar = pick(3), sp = pick(4), at = pick(3); N(Code) arr = NIL(Code);
	static const N(ETypenameTag) tags[] = { Tag_None, Tag_Class, Tag_Enum, Tag_UnderlyingType };
	if (ar == 1) arr = N(untyped_str)(S("3")); if (ar == 2) arr = N(untyped_str)(S("[N]"));
	return CODE(N(def_type)(b_name(na), OPTS(type, .type_tag = tags[tag], .ARRAY_EXPR = arr, .specifiers = b_specs(sp, Spec_Const, Spec_Ptr), .attributes = b_attr(at))));
}
static N(Code) b_preprocess(void)
{
	int what = pick(9), x = pick(3), y = pick(3); N(CodeBody) body; N(CodeDefineParams) none = NIL(CodeDefineParams), ps[2];
	switch (what) {
		case 0: return CODE(N(def_include)(S(x == 0 ? "stdio.h" : x == 1 ? "dir/file.hpp" : "x"), OPTS(include, .foreign = y)));
		case 1: return CODE(N(def_pragma)(S(x == 0 ? "once" : x == 1 ? "region All" : "pack(push, 1)")));
		case 2: return CODE(N(def_preprocess_cond)(x == 0 ? PreprocessCond_If : x == 1 ? PreprocessCond_IfDef : PreprocessCond_ElIf, S(y == 0 ? "FLAG" : y == 1 ? "defined(A) && B > 1" : "0")));
		case 3: return x == 0 ? CODE(N(preprocess_else)) : x == 1 ? CODE(N(preprocess_endif)) : CODE(N(pragma_once));
		case 4: ps[0] = (N(CodeDefineParams))N(untyped_str)(S("a")); (void)ps; return CODE(N(def_define)(x == 0 ? S("PLAIN") : x == 1 ? S("VALUE") : S("LONG"), y == 0 ? MT_Expression : y == 1 ? MT_Statement : MT_Typename, OPTS(define, .params = none, .content = x == 0 ? S("") : x == 1 ? S("42") : S("do { } while (0)"), .flags = x == 1 ? MF_Allow_As_Attribute : (N(MacroFlags))0, .dont_register_to_preprocess_macros = y == 1)));
		case 5: return CODE(N(def_comment)(S(x == 0 ? "one line" : x == 1 ? "two\nlines" : "")));
		case 6: return CODE(N(def_extern_link)(S(x == 0 ? "C" : "C++"), y ? N(def_extern_link_body)(1, b_parse(8, "void f();")) : N(def_extern_link_body)(ARGS(b_parse(8, "void f();"), b_parse(15, "int v;")))));
		case 7: return CODE(N(def_friend)(x == 0 ? b_parse(8, "void f();") : x == 1 ? CODE(b_type(1 + y)) : b_parse(2, "struct Peer;")));
		default: return CODE(N(def_module)(b_name(x), OPTS(module, .mflags = y == 0 ? ModuleFlag_None : y == 1 ? ModuleFlag_Export : ModuleFlag_Import)));
	}
}
/* bodies of every kind put together in the three ways there are, and taken apart again */
static N(Code) b_bodies(void)
{
	int what = pick(9), n = 1 + pick(3), how = pick(3), last = pick(4), i; N(Code) e[3]; N(CodeBody) b = NIL(CodeBody); N(Code) it;
	static const N(CodeType) kinds[] = { CT_Class_Body, CT_Struct_Body, CT_Union_Body, CT_Namespace_Body, CT_Extern_Linkage_Body, CT_Global_Body, CT_Export_Body, CT_Enum_Body, CT_Function_Body };
	e[0] = what == 7 ? N(untyped_str)(S("One,")) : what == 8 ? CODE(N(def_execution)(S("one();"))) : b_parse(15, "int one;");
	e[1] = CODE(N(def_comment)(S("two")));
	e[2] = CODE(N(def_preprocess_cond)(PreprocessCond_If, S("THREE")));
	if (last == 1) e[n - 1] = N(fmt_newline); if (last == 2) e[n - 1] = CODE(N(def_pragma)(S("last"))); if (last == 3) e[n - 1] = N(untyped_str)(S("last"));
	if (how == 2) { b = N(def_body)(kinds[what]); for (i = 0; i < n; i++) N(body_append)(b, e[i]); }
	else if (how == 1) switch (what) {
		case 0: b = N(def_class_body_arr)(n, e); break; case 1: b = N(def_struct_body_arr)(n, e); break; case 2: b = N(def_union_body_arr)(n, e); break;
		case 3: b = N(def_namespace_body_arr)(n, e); break; case 4: b = N(def_extern_link_body_arr)(n, e); break; case 5: b = N(def_global_body_arr)(n, e); break;
		case 6: b = N(def_export_body_arr)(n, e); break; case 7: b = N(def_enum_body_arr)(n, e); break; default: b = N(def_function_body_arr)(n, e);
	}
#define BY_N(F) b = n == 1 ? N(F)(1, e[0]) : n == 2 ? N(F)(2, e[0], e[1]) : N(F)(3, e[0], e[1], e[2]); break;
	else switch (what) {
		case 0: BY_N(def_class_body) case 1: BY_N(def_struct_body) case 2: BY_N(def_union_body) case 3: BY_N(def_namespace_body) case 4: BY_N(def_extern_link_body)
		case 5: BY_N(def_global_body) case 6: BY_N(def_export_body) case 7: BY_N(def_enum_body) default: BY_N(def_function_body)
	}
	mc_emitf("entries %d, body %d, has entries %d, valid %d\n", (int)b->NumEntries, (int)N(code_is_body)(CODE(b)), (int)N(code_has_entries)(CODE(b)), (int)N(code_is_valid)(CODE(b)));
	i = 0; for (it = N(begin_CodeBody)(b); it != N(end_CodeBody)(b) && i < 10; it = N(next_CodeBody)(b, it), i++) { mc_emitf("%d %d: ", i, (int)it->Type); lib_show(it); mc_emitf("\n"); }
	for (i = 0; i < n; i++) { N(Code) x = *N(code_entry)(CODE(b), (N(u32))i); mc_emitf("[%d] %d ", i, (int)x->Type); }
	return CODE(b);
}
/* lists of specifiers and parameters: appended to, searched, removed from, walked */
static N(Code) b_lists(void)
{
	int what = pick(2), a = pick(4), b = pick(4), c = pick(4), rm = pick(4); int i;
	static const N(Specifier) sp[] = { Spec_Const, Spec_Ptr, Spec_Ref, Spec_Static };
	if (what == 0) {
		N(CodeSpecifiers) s = N(def_specifier)(sp[a]); N(Specifier)* it;
		mc_emitf("%d ", (int)N(specifiers_append)(s, sp[b])); mc_emitf("%d ", (int)N(specifiers_append)(s, sp[c]));
		mc_emitf("%d ", (int)N(specifiers_has)(s, sp[rm])); mc_emitf("index %d ", (int)N(specifiers_index_of)(s, sp[rm]));
		if (N(specifiers_has)(s, sp[rm])) mc_emitf("remove %d ", (int)N(specifiers_remove)(s, sp[rm]));
		i = 0; for (it = N(begin_CodeSpecifiers)(s); it != N(end_CodeSpecifiers)(s) && i < 9; it = N(next_CodeSpecifiers)(s, it), i++) { lib_text(N(spec_to_str)(*it)); mc_emitf(","); }
		mc_emitf(" %d\n", (int)s->NumEntries);
		return CODE(s);
	} else {
		N(CodeParams) p = b_param(a & 1, "a"), it;
		N(params_append)(p, b_param(b & 1, "b")); if (c) N(params_append)(p, b_param(c & 1, "c"));
		if (c > 1) { N(CodeParams) more = N(def_params)(2, b_param(0, "d"), b_param(rm & 1, "e")); N(params_append)(p, more); }
		i = 0; for (it = N(begin_CodeParams)(p); it != N(end_CodeParams)(p) && i < 9; it = N(next_CodeParams)(p, it), i++) { lib_text(it->Name); mc_emitf(","); }
		mc_emitf(" %d has entries %d ", (int)p->NumEntries, (int)N(params_has_entries)(p));
		if (a < 2 && rm < 2 + (c > 0)) { N(CodeParams) x = N(params_get)(p, rm); mc_emitf("get "); lib_text(x->Name); }
		mc_emitf("\n");
		return CODE(p);
	}
}
/* what the interface offers over any code */
static void b_about(N(Code) c)
{
	N(Code) d; N(StrBuilder) s;
	if (!c) { mc_emitf("(null)"); return; }
	mc_emitf("kind %d %d ", (int)c->Type, (int)N(code_is_valid)(c)); lib_text(N(code_type_str)(c)); mc_emitf("\n");
	if (c->Type == CT_Invalid) return;
	lib_show(c);
	s = N(strbuilder_make_reserve)(lib_ctx.Allocator_Temp, 16); N(code_to_strbuilder_ref)(c, &s); mc_emitf("\n-- into: "); lib_put(s);
	d = N(code_duplicate)(c); mc_emitf("\n-- copy: "); lib_show(d); mc_emitf("\n-- equal %d\n", (int)N(code_is_equal)(c, d));
	lib_text(N(code_debug_str)(c));
}
/* a string through three operations */
static N(Code) b_strings(void)
{
	int init = pick(4), i, op[3], arg[3]; N(Code) none = NIL(Code); N(StrBuilder) s, o; N(Str) t; const char* parts[3];
	static const char* TEXTS[] = { "", "a", " padded \t", "one two" };
	s = init == 3 ? N(strbuilder_make_reserve)(lib_ctx.Allocator_Temp, 4) : init == 2 ? N(strbuilder_make_length)(lib_ctx.Allocator_Temp, "one two three", 7) : init == 1 ? N(strbuilder_make_c_str)(lib_ctx.Allocator_Temp, "abc") : N(strbuilder_make_str)(lib_ctx.Allocator_Temp, S(" x "));
	for (i = 0; i < 3; i++) { op[i] = pick(12); arg[i] = i < 2 ? pick(4) : pick(2) + 1; }
	for (i = 0; i < 3; i++) {
		int r = 1; t = S(TEXTS[arg[i]]);
		switch (op[i]) {
			case 0: r = N(strbuilder_append_str)(&s, t); break;
			case 1: r = N(strbuilder_append_c_str)(&s, TEXTS[arg[i]]); break;
			case 2: r = N(strbuilder_append_char)(&s, "xy \n"[arg[i]]); break;
			case 3: r = N(strbuilder_append_fmt)(&s, "<%d|%s|%S>", arg[i] * 1000, TEXTS[arg[i]], t); break;
			case 4: N(strbuilder_clear)(s); break;
			case 5: N(strbuilder_trim_space)(s); break;
			case 6: if (N(strbuilder_length)(s)) N(strbuilder_trim)(s, arg[i] & 1 ? "abx" : "c eo"); break;
			case 7: N(strbuilder_strip_space)(s); break;
			case 8: s = N(strbuilder_duplicate)(s, lib_ctx.Allocator_Temp); break;
			case 9: s = N(strbuilder_visualize_whitespace)(s); break;
			case 10: o = N(strbuilder_make_str)(lib_ctx.Allocator_Temp, t); r = N(strbuilder_append_string)(&s, o); mc_emitf("%d%d%d ", (int)N(strbuilder_are_equal)(s, o), (int)N(strbuilder_starts_with_string)(o, s), (int)N(strbuilder_contains_string)(s, o)); break;
			case 11: parts[0] = TEXTS[arg[i]]; parts[1] = "mid"; parts[2] = TEXTS[1]; s = N(strbuilder_join)(lib_ctx.Allocator_Temp, parts, 1 + arg[i] % 3, ", "); break;
		}
		mc_emitf("%d %d [", (int)!!r, (int)N(strbuilder_length)(s)); lib_put(s); mc_emitf("] ");
		if (N(strbuilder_capacity)(s) < N(strbuilder_length)(s)) mc_emitf("longer than its capacity ");
	}
	for (i = 0; i < 4; i++) { t = S(TEXTS[i]); mc_emitf("%d%d%d%d ", (int)!!N(strbuilder_contains_str)(s, t), (int)!!N(strbuilder_starts_with_str)(s, t), (int)!!N(strbuilder_are_equal_str)(s, t), (int)!!N(str_contains)(N(strbuilder_to_str)(s), t)); }
	t = N(str_duplicate)(N(strbuilder_to_str)(s), lib_ctx.Allocator_Temp); lib_text(t); lib_text(N(str_visualize_whitespace)(t, lib_ctx.Allocator_Temp));
	mc_emitf(" %d %d", (int)!!N(str_are_equal)(t, N(strbuilder_to_str)(s)), (int)!!N(str_starts_with)(t, S("one")));
	if (t.Len) mc_emitf(" %c", *N(str_back)(t));
	return none;
}
/* templates of text with tokens */
#ifdef LIBC
#	define TOKEN_FMT(...) gen_token_fmt(__VA_ARGS__)
#	define CODE_FMT(...)  gen_code_fmt(__VA_ARGS__)
#	define TXT(x)         txt(x)
#	define PARSE_FMT(...) gen_parse_fmt(__VA_ARGS__)
#else
#	define TOKEN_FMT(...) token_fmt(__VA_ARGS__)
#	define CODE_FMT(...)  code_fmt(__VA_ARGS__)
#	define TXT(x)         txt(x)
#	define PARSE_FMT(...) parse_fmt(__VA_ARGS__)
#endif
static N(Code) b_tokens(void)
{
	int f = pick(8), v = pick(4), how = pick(4); N(Code) none = NIL(Code); N(Str) a = v == 0 ? S("") : v == 1 ? S("Foo") : v == 2 ? S("unsigned long") : S("<b>"), b = S("bar");
	static const char* F[] = { "<a>", "<a> <b>;", "void <b>( <a> x );", "<c> <a>", "<<a>>", "<a", "no tokens", "<a><b><a>" };
	switch (how) {
		case 0: lib_text(TOKEN_FMT("a", a, "b", b, F[f])); return none;
		case 1: return CODE(CODE_FMT("b", b, "a", a, F[f]));
		case 2: return CODE(N(untyped_token_fmt)(2, F[f], "a", a, "b", b));
		default: return CODE(PARSE_FMT(global_body, "a", a, "b", b, "void <b>( int x ); int <b>_value;"));
	}
}
/* files: what a builder is given, as it lies in the file afterwards; and what a scan of it gives */
static N(Code) b_files(void)
{
	int i, op[4]; N(Code) none = NIL(Code), c; N(Builder) b = N(builder_open)("out/dir.hpp");
	for (i = 0; i < 4; i++) op[i] = pick(6);
	for (i = 0; i < 4; i++) switch (op[i]) {
		case 0: N(builder_print)(&b, b_parse(15, "int value;")); break;
		case 1: N(builder_print)(&b, CODE(N(parse_class)(S("class A { int x; };")))); break;
		case 2: N(builder_print_fmt)(&b, "// %d %s %S\n", 42, "text", S("str")); break;
		case 3: N(builder_pad_lines)(&b, 2); break;
		case 4: N(builder_print)(&b, CODE(N(def_comment)(S("note")))); break;
		case 5: break;
	}
	N(builder_write)(&b);
	mc_emit_file("out/dir.hpp");
	c = N(scan_file)("out/dir.hpp"); mc_emitf("\n-- scanned %d: ", (int)c->Type); lib_show(c);
	if (op[0] != op[1]) return CODE(N(parse_file)("out/dir.hpp"));
	return none;
}
/* values read as CSV and as trees */
static N(Code) b_values(void)
{
	static const char* CELLS[] = { "plain", "\"quoted, cell\"", "12", "-3.5", "", "\"a \"\"b\"\"\"", "0x1F", "1e3" };
	int a = pick(8), b = pick(8), c = pick(8), header = pick(2), semi = pick(2); N(Code) none = NIL(Code); N(CSV_Object) root; char text[256]; N(StrBuilder) s; int col, row; N(u8) err;
	memset(&root, 0, sizeof root);
	snprintf(text, sizeof text, "%s%c%s\n%s%c%s\n%s%c%s\n", CELLS[a], semi ? ';' : ',', CELLS[b], CELLS[c], semi ? ';' : ',', CELLS[a], CELLS[b], semi ? ';' : ',', CELLS[c]);
	err = N(csv_parse_delimiter)(&root, text, lib_ctx.Allocator_Temp, header, semi ? ';' : ',');
	mc_emitf("error %d\n", (int)err); if (err) return none;
	for (col = 0; col < (int)NUM(root.nodes); col++) { N(ADT_Node)* n = root.nodes + col; mc_emitf("column %s:", n->name ? n->name : ""); for (row = 0; row < (int)NUM(n->nodes); row++) { N(ADT_Node)* x = n->nodes + row; mc_emitf(" (%d) ", (int)x->type); if (x->type == EADT_TYPE_STRING) mc_emitf("%s", x->string); if (x->type == EADT_TYPE_INTEGER) mc_emitf("%lld", (long long)x->integer); if (x->type == EADT_TYPE_REAL) mc_emitf("%g", (double)x->real); } mc_emitf("\n"); }
	s = N(csv_write_strbuilder_delimiter)(lib_ctx.Allocator_Temp, &root, semi ? ';' : ','); lib_put(s);
	return none;
}
static void b_tree(N(ADT_Node)* n, int depth)
{
	int i;
	mc_emitf("%*s%s %d", depth * 2, "", n->name ? n->name : "-", (int)n->type);
	if (n->type == EADT_TYPE_STRING) mc_emitf(" %s", n->string); if (n->type == EADT_TYPE_INTEGER) mc_emitf(" %lld", (long long)n->integer); if (n->type == EADT_TYPE_REAL) mc_emitf(" %g", (double)n->real);
	mc_emitf("\n");
	if (n->type == EADT_TYPE_ARRAY || n->type == EADT_TYPE_OBJECT) for (i = 0; i < (int)NUM(n->nodes) && depth < 6; i++) b_tree(n->nodes + i, depth + 1);
}
static N(Code) b_trees(void)
{
	int i, op[4], at[4]; N(ADT_Node) root; N(ADT_Node)* cur[6]; int n = 0; N(Code) none = NIL(Code);
	static const char* NAMES[] = { "one", "two", "three", "four" };
	memset(&root, 0, sizeof root); N(adt_make_branch)(&root, lib_ctx.Allocator_Temp, "root", 0);
	for (i = 0; i < 4; i++) { op[i] = pick(7); at[i] = i ? pick(2) : 0; }
	(void)cur; (void)n;
	for (i = 0; i < 4; i++) {
		N(ADT_Node)* p = &root; if (at[i] && NUM(root.nodes)) { N(ADT_Node)* q = root.nodes + NUM(root.nodes) - 1; if (q->type == EADT_TYPE_OBJECT || q->type == EADT_TYPE_ARRAY) p = q; }
		switch (op[i]) {
			case 0: N(adt_append_int)(p, NAMES[i], 10 + i); break;
			case 1: N(adt_append_str)(p, NAMES[i], "text"); break;
			case 2: N(adt_append_flt)(p, NAMES[i], 1.5 * i); break;
			case 3: N(adt_append_obj)(p, NAMES[i]); break;
			case 4: N(adt_append_arr)(p, NAMES[i]); break;
			case 5: if (NUM(p->nodes)) N(adt_remove_node)(p->nodes); break;
			case 6: if (NUM(p->nodes) > 1) N(adt_swap_nodes)(p->nodes, p->nodes + 1); break;
		}
	}
	b_tree(&root, 0);
	for (i = 0; i < 4; i++) { N(ADT_Node)* f = N(adt_find)(&root, NAMES[i], 1); N(ADT_Node)* q = N(adt_query)(&root, NAMES[i]); mc_emitf("%d%d", f ? (int)f->type : -1, q ? (int)q->type : -1); }
	N(adt_destroy_branch)(&root);
	return none;
}
/* the functions any code can be given to, given each type of code as it is (in C they are selected by the type) */
#define TYPED(T, EXPR) case __COUNTER__ - TYPED_0: { N(T) c = (N(T))EXPR; N(Code) d; N(StrBuilder) s; N(Builder) b; \
	lib_text(N(code_type_str)(c)); mc_emitf(" %d%d%d ", (int)!!N(code_is_valid)(c), (int)!!N(code_is_body)(c), (int)!!N(code_has_entries)(c)); lib_put(N(code_to_strbuilder)(c)); \
	s = N(strbuilder_make_reserve)(lib_ctx.Allocator_Temp, 8); N(code_to_strbuilder_ref)(c, &s); lib_put(s); \
	d = N(code_duplicate)(c); mc_emitf("%d ", (int)!!N(code_is_equal)(c, d)); lib_show(d); lib_text(N(code_debug_str)(c)); \
	N(code_set_global)(c); \
	b = N(builder_open)("out/typed.hpp"); N(builder_print)(&b, c); N(builder_write)(&b); mc_emit_file("out/typed.hpp"); break; }
enum { TYPED_0 = __COUNTER__ + 1 };
static N(Code) b_typed(void)
{
	N(Code) none = NIL(Code);
	switch (pick(29)) {
		TYPED(Code, N(untyped_str)(S("raw")))
		TYPED(CodeBody, b_parse(0, "int a; void f();"))
		TYPED(CodeAttributes, b_attr(1))
		TYPED(CodeComment, N(def_comment)(S("text")))
		TYPED(CodeClass, b_parse(1, "class A : public B { int x; };"))
		TYPED(CodeConstructor, b_parse(5, "A( int a ) : x( a ) { }"))
		TYPED(CodeDefine, b_parse(18, "#define MAC(a, b) a + b"))
		TYPED(CodeDestructor, b_parse(6, "~A() { }"))
		TYPED(CodeEnum, b_parse(4, "enum E { One, Two };"))
		TYPED(CodeExec, N(def_execution)(S("run();")))
		TYPED(CodeExtern, b_parse(16, "extern \"C\" { void f(); }"))
		TYPED(CodeInclude, N(def_include)(S("a.h"), OPTS(include, .foreign = 0)))
		TYPED(CodeFriend, b_parse(7, "friend class Peer;"))
		TYPED(CodeFn, b_parse(8, "static int f( int a, char b ) { return a; }"))
		TYPED(CodeModule, N(def_module)(S("Mod"), OPTS(module, .mflags = ModuleFlag_Import)))
		TYPED(CodeNS, b_parse(9, "namespace N { int a; }"))
		TYPED(CodeOperator, b_parse(10, "A operator+( A a, A b );"))
		TYPED(CodeOpCast, b_parse(11, "operator int() const;"))
		TYPED(CodePragma, N(def_pragma)(S("once")))
		TYPED(CodeParams, b_params(3))
		TYPED(CodePreprocessCond, N(def_preprocess_cond)(PreprocessCond_IfNotDef, S("A")))
		TYPED(CodeSpecifiers, N(def_specifiers)(2, Spec_Static, Spec_Inline))
		TYPED(CodeStruct, b_parse(2, "struct S { int x; };"))
		TYPED(CodeTemplate, b_parse(12, "template< typename T > T f( T t );"))
		TYPED(CodeTypename, b_type(7))
		TYPED(CodeTypedef, b_parse(13, "typedef int Alias;"))
		TYPED(CodeUnion, b_parse(3, "union U { int i; float f; };"))
		TYPED(CodeUsing, b_parse(14, "using A = B;"))
		TYPED(CodeVar, b_parse(15, "int v = 1;"))
	}
	return none;
}
static N(Code) (*const b_families[])(void) = { b_class, b_struct, b_function, b_variable, b_enum, b_union, b_namespace, b_typedef, b_using, b_operator, b_cast, b_structors, b_template, b_type_of, b_preprocess, b_bodies, b_lists, b_strings, b_tokens, b_files, b_values, b_trees, b_typed };
FN(build, void)(int family, long k)
{
	b_k = k; b_all = 1;
	b_about(b_families[family]());
}
FN(builds, long)(int family) { if (family >= (int)(sizeof b_families / sizeof *b_families)) return 0; return b_all; }
