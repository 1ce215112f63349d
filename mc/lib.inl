/* One of gencpp's libraries behind a plain C interface: the same code, compiled as C++ against the library in base or the headers generated
   from it, and as C11 against the generated C library. LIB is the name of the library, LIBC is defined for the C library. */
#ifdef LIBC
#	define N(x) gen_##x
#	define EXTERN_C
#	define OPT(T, ...) __VA_ARGS__
#else
#	define N(x) gen::x
#	define EXTERN_C extern "C"
#	define OPT(T, ...) gen::T { __VA_ARGS__ }
#endif
#define FN2(l, x) lib_##l##_##x
#define FN1(l, x) FN2(l, x)
#define FN(x, R) EXTERN_C R FN1R(LIB, x)
#define FN1R(l, x) FN1(l, x)
typedef struct MC_STEP { int op, a, b; } MC_STEP;
EXTERN_C void mc_emit(const char* p, size_t n);
EXTERN_C void mc_emit_file(const char* path);
EXTERN_C void mc_emitf(const char* f, ...);
EXTERN_C void* mc_block(size_t n);   // a block of its own, freed after the case at the latest
EXTERN_C void  mc_unblock(void* p);
EXTERN_C int   mc_blocks(void);      // how many live

static char   lib_mem[48 << 20];
static size_t lib_used;
static int    lib_exact, lib_fail;   // every allocation a block of its own; the allocation to fail
static void*  lib_alloc(void* data, N(AllocType) type, N(ssize) size, N(ssize) align, void* old, N(ssize) old_size, N(u64) flags)
{
	(void)data; (void)align; (void)flags;
	if (type == EAllocation_FREE && lib_exact) mc_unblock(old);
	if (type == EAllocation_FREE || type == EAllocation_FREE_ALL) return NULL;
	if (lib_fail && --lib_fail == 0) return NULL;
	if (lib_exact) { void* p = mc_block((size_t)size); memset(p, 0xA5, (size_t)size); if (type == EAllocation_RESIZE && old) memcpy(p, old, (size_t)(old_size < size ? old_size : size)); return p; }
	size_t at = (lib_used + 31) & ~(size_t)15;
	if (at + (size_t)size > sizeof lib_mem) return NULL;
	memset(lib_mem + at, 0xA5, (size_t)size); lib_used = at + (size_t)size;
	if (type == EAllocation_RESIZE && old) memcpy(lib_mem + at, old, (size_t)(old_size < size ? old_size : size));
	return lib_mem + at;
}
static N(Context) lib_ctx;
static N(Str) lib_str(const char* p) { N(Str) s; s.Ptr = p; s.Len = (N(ssize))strlen(p); return s; }
static void lib_macro(const char* n, N(MacroType) t, int fl) { N(Macro) m; memset(&m, 0, sizeof m); m.Name = N(cache_str)(lib_str(n)); m.Type = t; m.Flags = (N(MacroFlags))fl; N(register_macro)(m); }
FN(up, void)(int exact)
{
	lib_used = 0; lib_exact = exact; lib_fail = 0; memset(&lib_ctx, 0, sizeof lib_ctx);
	N(AllocatorInfo) a; a.Proc = lib_alloc; a.Data = NULL;
	lib_ctx.Allocator_DyanmicContainers = lib_ctx.Allocator_Pool = lib_ctx.Allocator_StrCache = lib_ctx.Allocator_Temp = a;
	lib_ctx.CodePool_NumBlocks = 512; lib_ctx.SizePer_StringArena = 1 << 16; lib_ctx.InitSize_LexerTokens = 512; lib_ctx.InitSize_CodePoolsArray = 4; lib_ctx.InitSize_StringArenasArray = 4;
	N(init)(&lib_ctx);
	lib_macro("M_EXPR", MT_Expression, 0); lib_macro("M_EXPRF", MT_Expression, MF_Functional);
	lib_macro("M_STMT", MT_Statement, 0); lib_macro("M_STMTF", MT_Statement, MF_Functional);
	lib_macro("M_TYPE", MT_Typename, 0); lib_macro("M_TYPEF", MT_Typename, MF_Functional);
	lib_macro("M_BODY", MT_Statement, MF_Expects_Body); lib_macro("M_BODYF", MT_Statement, MF_Functional | MF_Expects_Body);
	lib_macro("M_DEFF", MT_Statement, MF_Functional | MF_Allow_As_Definition);
	lib_macro("M_ATTR", MT_Expression, MF_Allow_As_Attribute); lib_macro("M_ATTRF", MT_Expression, MF_Functional | MF_Allow_As_Attribute);
	lib_macro("UPARAM", MT_Expression, MF_Functional); lib_macro("UMETA", MT_Expression, MF_Functional);
}
FN(down, void)(void) { N(deinit)(&lib_ctx); }
static void lib_text(N(Str) t) { mc_emit(t.Ptr, (size_t)t.Len); }
static void lib_put(N(StrBuilder) s) { N(Str) t = N(strbuilder_to_str)(s); mc_emit(t.Ptr, (size_t)t.Len); }
static void lib_show(N(Code) c) { lib_put(N(code_to_strbuilder)(c)); }
#define CODE(x) ((N(Code))(x))
static N(Code) lib_parse(int which, N(Str) s)
{
	switch (which) {
		case 0:  return CODE(N(parse_global_body)(s));
		case 1:  return CODE(N(parse_class)(s));
		case 2:  return CODE(N(parse_struct)(s));
		case 3:  return CODE(N(parse_union)(s));
		case 4:  return CODE(N(parse_enum)(s));
		case 5:  return CODE(N(parse_constructor)(s));
		case 6:  return CODE(N(parse_destructor)(s));
		case 7:  return CODE(N(parse_friend)(s));
		case 8:  return CODE(N(parse_function)(s));
		case 9:  return CODE(N(parse_namespace)(s));
		case 10: return CODE(N(parse_operator)(s));
		case 11: return CODE(N(parse_operator_cast)(s));
		case 12: return CODE(N(parse_template)(s));
		case 13: return CODE(N(parse_typedef)(s));
		case 14: return CODE(N(parse_using)(s));
		case 15: return CODE(N(parse_variable)(s));
		case 16: return CODE(N(parse_extern_link)(s));
		case 17: return CODE(N(parse_export_body)(s));
		case 18: return CODE(N(parse_define)(s));
		default: return CODE(N(parse_type)(s));
	}
}
FN(parse, void)(int which, const char* src, size_t n)
{
	N(Str) s; s.Ptr = src; s.Len = (N(ssize))n;
	N(Code) c = lib_parse(which, s);
	if (!c) { mc_emitf("(null)"); return; }
	if (c->Type == CT_Invalid) { mc_emitf("(invalid)"); return; }
	lib_show(c);
	mc_emitf("\n-- kind %d\n", (int)c->Type);
	N(Code) d = N(code_duplicate)(c);
	lib_show(d);
	mc_emitf("\n-- equal %d\n", (int)N(code_is_equal)(c, d));
	lib_text(N(code_debug_str)(c));
}
#include "build.inl"
#ifdef LIBC
#	include "seq.inl"
#else
FN(seq, void)(int family, int reserve, int direct, int fail_at, const MC_STEP* ops, int n) {}
#endif
