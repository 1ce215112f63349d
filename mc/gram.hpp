// The bounded grammar: every declaration form gencpp documents as supported, as products of alternatives for each
// syntactic position, in each scope it may stand in.
#pragma once
#include "mc.hpp"
#include "toks.hpp"
namespace gram {
typedef std::vector<const char*> L;
struct Scope { const char* name; const char* pre; const char* post; };
static const Scope GLOBAL = { "global", "", "" };
static const Scope CLASS  = { "class", "class Cx\n{\npublic:\n", "\n};" };
static const Scope STRUCT = { "struct", "struct Cx\n{\n", "\n};" };
static const Scope UNION  = { "union", "union Cx\n{\n", "\n};" };
static const Scope NSPACE = { "namespace", "namespace Nx\n{\n", "\n}" };
static const Scope EXTERN = { "extern \"C\"", "extern \"C\"\n{\n", "\n}" };
static const Scope EXPORT = { "export", "export\n{\n", "\n}" };
static const std::vector<Scope> OUTER = { GLOBAL, NSPACE, EXTERN, EXPORT }, MEMBER = { CLASS, STRUCT }, ALL = { GLOBAL, NSPACE, EXTERN, EXPORT, CLASS, STRUCT };

template<class F> static void prod(const char* family, std::vector<Scope> const& scopes, std::vector<L> const& parts, F f)
{
	for (auto& sc : scopes) {
		std::vector<size_t> ix(parts.size(), 0);
		for (;;) {
			if (mc::mine()) { std::string s; for (size_t i = 0; i < parts.size(); i++) s += parts[i][ix[i]]; f(family, sc, s); } else mc::skip_case();
			int k = (int)parts.size() - 1; for (; k >= 0; k--) { if (++ix[k] < parts[k].size()) break; ix[k] = 0; }
			if (k < 0) break;
			if (mc::stopped()) return;
		}
	}
}
static const L TYPES = { "int", "unsigned long long", "char const*", "const int", "A::B", "A<int, B>", "A<B<int>>", "A<B<int> >", "int&", "int&&", "int*", "int**", "int* const", "const A::B&", "auto", "decltype(x)", "typename A::B", "struct S", "enum E", "A<(1 > 2)>", "A<3>", "::A", "::A::B<int>::C", "unsigned", "signed char", "long double", "A<int>*", "short int", "volatile int", "bool", "A<int(*)(int)>", "M_TYPE", "M_TYPE*", "class C", "union U", "A::B<C::D>", "A<sizeof(int)>", "A<'>'>", "__int64", "A<B...>" };
static const L TYPES_S = { "int", "char const*", "A::B", "A<int, B>&", "unsigned long" };
static const L EXPRS = { "1", "-1", "a", "a + b", "f(1, 2)", "\"s;t\"", "'\\''", "sizeof(int)", "{ 1, 2 }", "(1 << 2) | 3", "a ? b : c", "A<int>::B", "[](int x) { return x; }", "A{ 1 }", "&a", "!a", "0x1F", "1.5f", "'a'", "*a", "a[1]", "a->b", "M_EXPR", "M_EXPRF(1, 2)", "new int[2]", "A::B", "\"a\\\"b\"", "-1.5e-3", "1u", "~a", "a < b", "(a > b)", "a && b", "nullptr", "\"a\" \"b\"", "{}", "{ { 1, 2 }, { 3 } }", "L\"w\"" };
static const L BODIES = { "{ }", "{ return a; }", "{ if (a) { b(); } else c(\"}\"); }", "{\n\tint a = 1; // c }\n\ta++;\n}", "{ /* } */ char c = '}'; }", "{ for (;;) { while (x) {} } return; }" };
static const L EOLC = { "", " // trailing" };

template<class F> static void variables(bool th, F f)
{
	prod("var types", ALL, { { "" }, TYPES, { " a" }, { ";", " = 1;", "[2];", ", b;", "[A][B + 1];", ", * b = 0, c[2];" }, EOLC }, f);
	prod("var specs", OUTER, { { "", "extern ", "static ", "inline ", "constexpr ", "static constexpr ", "static inline ", "global ", "thread_local ", "local_persist ", "internal ", "constinit ", "volatile ", "static volatile ", "mutable " }, TYPES_S, { " a" }, { ";", " = 1;", "[2];", ", b;" } }, f);
	prod("member specs", MEMBER, { { "", "static ", "inline ", "constexpr ", "static constexpr ", "static inline ", "volatile ", "mutable ", "constinit ", "mutable volatile " }, TYPES_S, { " a" }, { ";", " = 1;", "[2];", ", b;", " : 3;", " : A + 1;", " : 3 = 2;" }, EOLC }, f);
	prod("var init", ALL, { { "int a = ", "auto a = ", "A a[2] = ", "static A a = " }, EXPRS, { ";", ", b = 2;", ", b;" } }, f);
	prod("var attributes", ALL, { { "[[nodiscard]] ", "[[a, b(1)]] ", "[[a::b]] ", "[[a]] [[b]] ", "__attribute__((x)) ", "__declspec(dllexport) ", "GEN_API ", "alignas(8) " }, { "", "static " }, { "int a", "A::B<C> a" }, { ";", " = 1;" } }, f);
	prod("var arrays", ALL, { { "int a" }, { "[]", "[1]", "[a + b]", "[1][2]", "[][2]", "[f(1)]", "[sizeof(int)]", "[A::B]", "[x[1]]" }, { "", "[3]" }, { ";", " = { 1 };", ", b;", ", b[4];" } }, f);
	prod("var lists", ALL, { { "int ", "A const* ", "static int ", "A<B> " }, { "a", "a = 1", "a[2]" }, { ", ", "," }, { "b", "b = 2", "* b", "b[3]", "& b = a", "** b", "* const b = 0" }, { "", ", c", ", * c = 0", ", c[1] = {}" }, { ";" }, EOLC }, f);
	prod("bitfields", MEMBER, { { "int ", "unsigned ", "A::B " }, { "a : 1", "a : B", "a : 1 + 2" }, { "", ", b : 2", ", b : 2, c : 3" }, { ";" }, EOLC }, f);
}
static const L PARAMS = { "", "int", "int a", "int a, int b", "A<B, C> a", "const A& a = A()", "int a = 1, char const* b = \"x, y\"", "...", "int a, ...", "void", "int (*f)(int)", "A const* const a", "A&& a, B<C>&& b", "int a = f(1, 2), B b = B<int, 2>()", "UPARAM int a", "typename T::X a", "T&&... a", "unsigned", "A::B, C::D", "struct S* s", "auto a" };
template<class F> static void functions(bool th, F f)
{
	prod("fn params", ALL, { { "int f(", "void A_f( " }, PARAMS, { ")" }, { ";", "\n{ return a; }" } }, f);
	prod("fn types", ALL, { { "", "static ", "inline " }, TYPES, { " f(int a)" }, { ";", " { }" } }, f);
	prod("fn specs", OUTER, { { "static ", "inline ", "extern ", "constexpr ", "consteval ", "forceinline ", "neverinline ", "static inline ", "static constexpr ", "internal ", "inline constexpr ", "static inline constexpr ", "global " }, TYPES_S, { " f(", " f(int a = 1" }, { ");", ") { return 1; }" } }, f);
	prod("method specs", MEMBER, { { "", "virtual ", "static ", "inline ", "constexpr ", "forceinline ", "static inline ", "inline virtual ", "static constexpr ", "neverinline ", "consteval " }, TYPES_S, { " f(int a)" }, { "", " const", " override", " final", " const override", " volatile", " const final", " override final" }, { ";", " = 0;", " = delete;", " { return a; }" }, { "" } }, f);
	prod("fn suffix", OUTER, { { "int f(int a)", "A::B f()" }, { "", " noexcept", " noexcept(true)", " const" }, { ";", " { return 1; }", " = delete;" } }, f);
	prod("fn attributes", ALL, { { "[[nodiscard]] ", "[[a, b(1)]] ", "__attribute__((x)) ", "__declspec(dllexport) ", "GEN_API ", "[[a]] [[b]] " }, { "", "static ", "inline " }, { "int f()", "A::B<C> f(int a)" }, { ";", " { }" }, EOLC }, f);
	prod("fn bodies", ALL, { { "int f(int a)" }, { "", " " }, BODIES, { "", "\n", "\nint z;", "\n// after" } }, f);
	prod("fn inline comment", ALL, { { "int f( int a );", "static int f();", "A f( int a = 1, int b );" }, { " // c", " /* c */", "\n// c", "\n\n/* c\n d */" }, { "", "\nint b;" } }, f);
	prod("fn qualified", OUTER, { { "int A::f(int a)", "A::B A::f()", "void A<T>::f()", "int A::B::f(int a)", "static A::B* A::B::f()" }, { "", " const" , " noexcept" }, { ";", " { return 1; }" } }, f);
	prod("fn trailing", ALL, { { "auto f(int a) -> ", "inline auto f() -> " }, TYPES_S, { ";", " { return 1; }" } }, f);
}
static const L OPS_UN = { "++", "--", "+", "-", "!", "*", "~", "&", "->", "()" }, OPS_BIN = { "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "[]", "->*", "()", ",", "++", "--" };
static const L OPS_UN2 = { "++", "--", "+", "-", "!", "*", "~", "&" }, OPS_BIN2 = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "->*", ",", "++", "--" };
template<class F> static void operators(bool th, F f)
{
	prod("operator", OUTER, { { "", "inline ", "static ", "constexpr " }, { "A", "A&", "bool", "A::B<C> const*" }, { " operator" }, OPS_BIN2, { "( A const& a, B b )" }, { ";", " { return a; }" } }, f);
	prod("operator unary", OUTER, { { "", "inline ", "static ", "constexpr " }, { "A", "A&", "bool", "A::B<C> const*" }, { " operator" }, OPS_UN2, { "( A a )" }, { ";", " { return a; }" } }, f);
	prod("member operator", MEMBER, { { "", "inline ", "virtual ", "[[nodiscard]] " }, { "A", "A const&" }, { " operator" }, OPS_BIN, { "( B b )", "( int )" }, { "", " const" }, { ";", " { return a; }" }, { "" } }, f);
	prod("member unary operator", MEMBER, { { "", "inline ", "virtual ", "[[nodiscard]] " }, { "A", "A const&" }, { " operator" }, OPS_UN, { "()" }, { "", " const" }, { ";", " { return a; }" }, { "" } }, f);
	prod("operator cast", MEMBER, { { "", "inline ", "explicit ", "constexpr ", "virtual ", "inline explicit " }, { "operator " }, TYPES, { "()" }, { "", " const" }, { ";", " { return a; }" }, EOLC }, f);
	prod("operator cast def", { GLOBAL, NSPACE }, { { "", "inline " }, { "A::", "A::B::" }, { "operator " }, TYPES_S, { "()" }, { "", " const" }, { ";", " { return a; }" } }, f);
	prod("operator qualified", { GLOBAL, NSPACE }, { { "", "inline " }, { "bool A::", "A& A::B::" }, { "operator" }, OPS_BIN, { "( A const& a )" }, { "", " const" }, { ";", " { return 1; }" } }, f);
}
template<class F> static void ctors(bool th, F f)
{
	prod("ctor", MEMBER, { { "", "inline ", "explicit ", "constexpr ", "inline explicit ", "constexpr explicit ", "forceinline " }, { "Cx(" }, PARAMS, { ")" }, { ";", " = default;", " = delete;", " { }", " : a(1) { }", " : a(1), b{ 2 } { c(); }", " : A<B>(1) { }" }, EOLC }, f);
	prod("dtor", MEMBER, { { "", "virtual ", "inline ", "inline virtual " }, { "~Cx()" }, { "", " override", " final" }, { ";", " = default;", " = 0;", " { }", " { a(); }" }, EOLC }, f);
	prod("ctor def", { GLOBAL, NSPACE }, { { "", "inline ", "constexpr " }, { "A::A(", "A::B::B(", "A<T>::A(" }, { "", "int a", "A const& a, int b" }, { ")" }, { " { }", " : a(1) { }", " : a(1), b{ 2 } { c(); }", " = default;" } }, f);
	prod("dtor def", { GLOBAL, NSPACE }, { { "", "inline " }, { "A::~A()", "A::B::~B()" }, { " { }", " { a(); }", " = default;" } }, f);
}
static const L MEMBERS = { "", "int a;", "int a;\nint b;", "int f();", "int a; // c", "// c\nint a;", "int f() { return 1; }", "int a = 1;", "static int a;", "struct B { int c; };", "enum E { X, Y };", "using X = int;", "typedef int X;", "union { int a; };", "template<typename T> T g(T t);", "\n\nint a;\n\n", "#if A\nint a;\n#else\nint b;\n#endif", "struct { int a; } b;", "M_STMT", "M_STMTF(1, 2)", "class D;", "int a, b;", "friend class D;", "friend int f();", "int a[2];", "/* c */", "#define X 1\nint a;" };
template<class F> static void records(bool th, F f)
{
	prod("record forward", ALL, { { "class", "struct", "union", "enum", "enum class" }, { " A;", " [[a]] A;", " GEN_API A;", " alignas(8) A;" }, EOLC }, f);
	prod("record heads", ALL, { { "class", "struct" }, { " ", " [[a]] ", " [[a, b(1)]] ", " GEN_API ", " __declspec(dllexport) ", " alignas(8) ", " __attribute__((x)) " }, { "A", "A final" }, { "", " : B", " : public B", " : private B", " : protected B", " : public B, public C", " : public B, private C", " : public B, protected C", " : public A::B<C>", " : B<int, 2>, protected C" }, { " { };", "\n{\nint a;\n};" }, EOLC }, f);
	prod("record members", ALL, { { "class A {\n", "struct A { \n", "class A { public:\n", "struct A { private:\n", "class A : public B {\nprotected:\n" }, MEMBERS, { "\n};", "\n\n};", "\npublic:\nint z;\n};" } }, f);
	prod("union members", ALL, { { "union A { ", "union { ", "union [[a]] A { " }, { "int a; ", "int a; float b; ", "struct { int a; int b; }; ", "struct B { int a; }; ", "int a[2]; // c\n", "A::B<C>* a; ", "int f(); ", "enum E { X }; ", "\n#if A\nint a;\n#endif\n", "union { int a; }; ", "// c\nint a;\n", "int a, b; " }, { "};" }, { "" } }, f);
	prod("record variable", ALL, { { "struct A { int a; }", "struct { int a; }", "union { int a; }", "enum { A }", "class A { public: int a; }" }, { " x;", " x[2];", " x, y;", " *x;" , " x = { 1 };" } }, f);
	prod("access", { GLOBAL }, { { "class A {\npublic:\n", "struct A {\nprivate:\n", "class A {\n" }, { "int a;\n", "" }, { "protected:\n", "private:\n", "public:\n", "" }, { "int b;\n", "int f();\n", "" }, { "public:\n", "private: " }, { "int c;\n", "" }, { "};" } }, f);
	prod("enum", ALL, { { "enum ", "enum class ", "enum struct " }, { "", "[[a]] ", "GEN_API " }, { "E", "E : int", "E : A::B", "E : unsigned char" }, { " { }", " { A }", " { A, B }", " { A, B, }", " { A = 1, B = A + 1 }", " { A = f(1, 2), B }", " { A, // c\nB, /* d */\n}", "\n{\n// c\nA,\n\nB\n}", " { A = 'c', B = (1 << 2), C = \"s\"[0] }", " {\n#if X\nA,\n#endif\nB\n}", " { A, M_STMT B }", " { A UMETA(x), B }" }, { ";" }, EOLC }, f);
	prod("enum forward", ALL, { { "enum ", "enum class " }, { "E", "E : int", "E : A::B" }, { ";" }, EOLC }, f);
	prod("anonymous enum", ALL, { { "enum { ", "enum : int { " }, { "A", "A = 1, B" }, { " };" }, EOLC }, f);
}
template<class F> static void templates(bool th, F f)
{
	prod("template", ALL, { { "template" }, { "<typename T> ", "<class T> ", "<int N> ", "<typename T, int N = 3> ", "<typename... T> ", "<> ", "<typename T = A<int, B>> ", "<template<typename> class T> ", "<typename T, typename U = T*>\n", "<int N = (1 > 2)> ", "<typename> ", "<auto N> ", "<int... N> ", "<typename T, class... Us> " , "<A::B N> ", "<typename T = decltype(x)> " },
		{ "struct A;", "struct A { T a; };", "class A : public B<T> { int a; };", "T f(T a);", "T f(T a) { return a; }", "inline T f();", "static T a = 1;", "T a;", "using X = A<T>;", "constexpr int a = N;", "struct A<int> { };", "A<T> operator+(A<T> const& a, A<T> b);", "union U { T a; };", "auto f(T a) { return a; }", "void A<T>::f() { }", "forceinline T f(T const& a) { return a; }", "template<typename U> void A<T>::f(U u) { }", "A<T>::A(int a) { }", "static inline T f(T a);", "T* f(T** a, int b = sizeof(T));" } }, f);
}
template<class F> static void aliases(bool th, F f)
{
	prod("using", ALL, { { "using X = " }, TYPES, { ";" }, EOLC }, f);
	prod("using arrays", ALL, { { "using X = " }, { "int[2];", "A<B>[N];", "int[2][3];", "int (*)(int);", "int(int, char);", "void (A::*)(int);", "int (&)[2];" }, { "" } }, f);
	prod("using attributes", ALL, { { "using X [[a]] = ", "using X __attribute__((x)) = " }, { "int", "A<B>" }, { ";" }, EOLC }, f);
	prod("using namespace", OUTER, { { "using namespace " }, { "A", "A::B", "::A" }, { ";" }, EOLC }, f);
	prod("using declaration", ALL, { { "using " }, { "A::B", "::A", "A<int>::B" }, { ";" }, EOLC }, f);
	prod("typedef", ALL, { { "typedef " }, TYPES, { " X;", " X[2];", "* X;", " X[2][3];" }, EOLC }, f);
	prod("typedef fn", ALL, { { "typedef " }, TYPES_S, { " (*X)(", " X(", " (&X)(", "(A::*X)(" }, { "", "int", "int a, char const* b", "A<B, C>" , "..." }, { ");" }, EOLC }, f);
	prod("typedef record", ALL, { { "typedef " }, { "struct A", "struct", "union A", "enum A", "class A", "enum", "union", "struct [[a]] A" }, { " { int a; } X;", " { int a; int b; } X;", " X;" }, EOLC }, f);
	prod("typedef enum", ALL, { { "typedef enum" }, { "", " A", " A : int", " class A" }, { " { A } X;", " { A = 1, B } X;" }, EOLC }, f);
	prod("typedef attributes", ALL, { { "typedef " }, { "[[a]] ", "GEN_API ", "__attribute__((x)) " }, { "int X;", "A<B> X;", "int (*X)(int);" } }, f);
	prod("typedef macro", ALL, { { "typedef M_EXPRF( a, b );", "typedef M_STMTF( a );", "typedef M_TYPEF( a ) X;", "typedef M_TYPE X;" }, EOLC }, f);
}
static const L DECLS = { "int a;", "int f();", "int f() { return 1; }", "struct A { int a; };", "enum E { X };", "using X = int;", "typedef int X;", "namespace N { int a; }", "template<typename T> struct S;", "extern \"C\" { int f(); }", "// c", "/* c */", "#define X 1", "#include <a.h>", "#include \"a/b.h\"", "#pragma once", "#if A\nint b;\n#endif", "M_STMT", "M_STMTF(1)", "class C;", "static_assert(1, \"x\");", "int a; // c", "using namespace A;", "union U { int a; };", "#undef X", "bool operator==(A a, B b);", "M_STMTF(1);" };
template<class F> static void bodies(bool th, F f)
{
	prod("pairs", ALL, { DECLS, { "\n", "\n\n", "\n\n\n// between\n" }, DECLS }, f);
	if (th) prod("triples", ALL, { DECLS, { "\n" }, DECLS, { "\n\n" }, DECLS }, f);
	prod("namespace", { GLOBAL, NSPACE, EXPORT }, { { "namespace A", "namespace A::B", "inline namespace A", "namespace" }, { " {\n", "\n{\n" }, DECLS, { "\n}" }, { "", "\nint z;" } }, f);
	prod("extern linkage", { GLOBAL, NSPACE }, { { "extern \"C\" ", "extern \"C++\"\n" }, { "{\n", "\n{ \n" }, DECLS, { "\n}" } }, f);
	prod("extern linkage decl", { GLOBAL, NSPACE }, { { "extern \"C\" " }, { "int f();", "int a;", "int f() { return 1; }" } }, f);
	prod("export", { GLOBAL, NSPACE }, { { "export " }, { "int a;", "int f();", "struct A { };", "class A;", "using X = int;", "namespace A { int a; }", "template<typename T> struct S;", "enum E { A };", "typedef int X;", "union U { int a; };", "int f() { return 1; }", "{ int a; }", "inline int f();", "template<typename T> T f();" } }, f);
	prod("module", { GLOBAL }, { { "module a;", "export module a;", "import a;", "export import a;", "module;" } }, f);
	prod("friend", MEMBER, { { "friend " }, { "class A;", "struct A;", "A;", "int f();", "int f(int a) { return a; }", "bool operator==(A const& a, A const& b);", "inline int f() { return 1; }", "A<int>;", "A::B;", "class A<T>;", "inline bool operator<(A a, B b) { return 1; }", "A& operator=(A b);", "const A* f();", "A::B<C> f(int a, int b = 2);" }, EOLC }, f);
	prod("static_assert", ALL, { { "static_assert(" }, { "1", "sizeof(int) == 4", "A<B, C>::d", "(a > b) && c" }, { ")", ", \"m)\")" }, { ";" }, EOLC }, f);
}
template<class F> static void preprocessor(bool th, F f)
{
	prod("define", ALL, { { "#define X" , "# define X", "#define  X" }, { "", " 1", " a + b", " \"s\"", " do { } while (0)", " \\\n1", " a \\\n  b \\\n  c", "()", "() 1", "(a) a", "(a, b) a##b", "(a, ...) f(a, __VA_ARGS__)", "(...) #__VA_ARGS__", "( a, b ) ((a) + (b))", " 'c'", " // c", " 1 // c", " /* c */ 1", "(a) \\\n do { a; } \\\n while (0)" }, { "", "\n", "\nint b;" } }, f);
	prod("redefinitions", ALL, { { "#define X 1\n", "#define X(a) a\n", "#define X() 1\n", "#define X\n", "#define M_EXPR 2\n", "#define M_EXPRF 2\n" }, { "", "#undef X\n", "int y;\n" }, { "#define X 1", "#define X(b) b", "#define X", "#define X()", "#define M_EXPRF 1", "#define M_STMT(a) a", "#define M_TYPEF(a, b) a b", "#define X (1)" }, { "", "\nint a = X;", "\nint a = X(1);" } }, f);
	prod("conditionals", ALL, { { "#if A", "#ifdef A", "#ifndef A", "#if defined(A) && (B > 1)", "#if A \\\n && B", "#  if A", "#if A // c" }, { "\nint a;" }, { "", "\n#else\nint b;", "\n#elif B == 1\nint b;", "\n#elif B\nint b;\n#else\nint c;", "\n#if C\nint d;\n#endif" }, { "\n#endif", "\n#endif // A", "\n#endif\nint e;", "\n#endif // c\nint e;", "\n#\tendif" } }, f);
	prod("includes", OUTER, { { "#include " }, { "<a.h>", "\"a.h\"", "<a/b-c.hpp>", "\"../a.h\"", "M_EXPR" }, { "", " // c", "\nint a;", "\n\n#include <b.h>" } }, f);
	prod("pragmas", ALL, { { "#pragma once", "#pragma region A b", "#pragma warning(disable: 1)", "#undef A", "#error a b", "#line 3", "#warning x" }, { "", "\nint a;", " // c", "\n#pragma endregion A" } }, f);
	prod("comments", ALL, { { "// a", "/* a */", "/* a\n b */", "//", "/**/", "// a\n// b", "/// a", "/** a */", "// \\a", "// \"", "/* \" */", "//\ta" }, { "\n", "\n\n" }, { "int a;", "int f();", "struct A { };", "", "#define X" }, { "", " // t", " /* t */", "\n// e", "\n/* e */" } }, f);
	prod("macros", ALL, { { "M_STMT", "M_STMT;", "M_STMTF(1)", "M_STMTF(1, (2, 3));", "M_STMTF();", "M_BODY { int a; }", "M_BODYF(1) { int a; }", "M_DEFF(1) int a;", "M_STMTF( \")\" )", "M_STMTF({ 1 })", "M_STMTF(\n1,\n2\n)" , "M_ATTR int a;", "M_ATTR int f();", "M_ATTRF(1) int f();" }, { "", " // c", "\nint b;", "\n\nint f();" } }, f);
	prod("macro functions", OUTER, { { "inline M_EXPRF( a, b ) { return 1; }", "neverinline M_STMTF() { return 1; }", "static M_EXPRF( a );", "extern M_EXPRF( a );", "extern M_STMTF();", "inline M_STMTF( a, int f() ) { }", "M_TYPE f();", "M_TYPEF(int) f();", "M_TYPEF(int) a = 1;", "static M_TYPE a;" }, { "", "\nint b;" } }, f);
}
template<class F> static void unsupported(bool th, F f)
{
	prod("forms of narrow support", ALL, { { "int f(int* a[2]);", "int f(A a = { 1, 2 }, int b);", "int f(int a[2], int b[]);", "int f(int a) noexcept;", "int f(int a) const noexcept { return a; }", "enum E { A [[x]], B };", "struct A : virtual B { };", "class A : public virtual B { int a; };",
		"int a[2] = { 1, 2 };", "int a = 1'000'000;", "auto [a, b] = f();", "using enum E;", "template<> struct A<int> { };", "template struct A<int>;", "extern template struct A<int>;", "concept C = true;", "template<typename T> requires C<T> T f();", "asm(\"nop\");", "int a, f();", "int (*f(int))(int);", "int (*a)[2];", "int (A::*a)(int);", "int (&a)[2] = b;", "struct A { }; int b;", "unsigned a : 1;", "unsigned : 1;", "int 5;", "int = 5;", "int +;", "int a = 1 /* c */;", "int /* c */ a;", "/* c */ int a;", "int f(int /* c */ a);", "typedef int /* c */ X;", "R\"(a)\";", "char const* a = R\"(b\"c)\";", "char const* a = u8\"b\" \"c\";", "int a = L'b';", "int a = 'abcd';", "char a = '\\\\';", "char const* a = \"\\\\\";" } }, f);
}
template<class F> static void lists(bool th, F f)
{
	prod("attribute macros", ALL, { { "M_ATTR ", "M_ATTRF( 1 ) ", "M_ATTRF() ", "M_ATTRF( ((1)), 2 ) ", "M_ATTRF( f( g( 1 ), h() ), (2) ) ", "M_ATTRF( \")\", 1 ) ", "M_ATTR M_ATTRF( (1) ) ", "[[a]] M_ATTR " }, { "", "static ", "inline " }, { "int f( int a );", "int f() { }", "int a;", "A::B<C> a = 1;" }, EOLC }, f);
	prod("attribute macros in heads", ALL, { { "struct", "class", "union", "enum", "enum class" }, { " M_ATTR", " M_ATTRF( 1 )", " M_ATTRF( ((1)), (2) )", " [[a( (1), (b( 2 )) )]]", " __attribute__((a( (1), 2 )))", " __declspec(align( (1) ))" }, { " A;", " A { };" } }, f);
	prod("attribute macros in enums", ALL, { { "enum", "enum class" }, { " M_ATTR", " M_ATTRF( 1 )", " [[a( (1), (b( 2 )) )]]", " __attribute__((a( (1), 2 )))" }, { " A { a };", " A : int { a, b };" } }, f);
	prod("record bases of a class", ALL, { { "class A : ", "class A final : ", "class [[a]] A : " }, { "B", "public B, public C, public D", "public B, private D::F, protected G<int, H>", "B, protected C, public D, private E, public F" }, { "\n{\n};", " { int a; };", " { public: int a; protected: int b; private: int c; };" } }, f);
	prod("record bases", ALL, { { "struct A : ", "struct A final : ", "struct [[a]] A : " }, { "B, C, D", "public B, public C, public D", "public B, C<int, E>, private D::F, G", "public B<C, D<1>>, protected E", "private B, public C", "B, public C", "public B, C", "B<int>, C<A, B<2>>, D, E, F" }, { "\n{\n};", " { int a; };", " { public: int a; protected: int b; private: int c; };" } }, f);
	prod("fn param lists", ALL, { { "int f( ", "static A<B> f( ", "void A_f( " }, { "int a, int b, int c", "int a = 1, int b = 2, int c = 3, int d = 4", "A<B, C> a, D<E, F<G>> const& b = {}, char* c, ...", "int, int, int, int", "int a, int, int b, int", "A a = f( 1, g( 2, 3 ) ), B b = { 1, { 2, 3 } }, C c = \"),(\"", "int (*a)(int, int), int (*b)(), int c", "UPARAM(ref) int a, UPARAM( x, (y) ) int b = 1, int c" }, { " )" }, { ";", " { return a; }" }, EOLC }, f);
	prod("enum lists", ALL, { { "enum E ", "enum class E : A::B " }, { "{ A, B, C, D }", "{ A = 1, B, C = A + B, D = f( 1, 2 ), }", "{ A, // a\n B, // b\n C // c\n}", "{\n A,\n // over B\n B,\n\n C = 3,\n /* d */\n D\n}", "{ A = 1 << 2, B = (A | 3), C = sizeof( int ) }", "{\n#if A\n A,\n#else\n B,\n#endif\n C }", "{ A = 'a', B = ',', C = '}' }", "{ M_STMTF( A, B ), C }", "{ M_EXPRF( A, B )\n C, D }" }, { ";" }, EOLC }, f);
	prod("template lists", ALL, { { "template< typename A, class B, int C, bool... D > ", "template< typename A = int, int B = 2, typename C = E< F, 3 > > ", "template< template< class, class > class A, typename... B > ", "template< int A = (1 > 2), class B = C > ", "template< class A, A B, A* C > " }, { "struct S;", "struct S { A a; };", "A f( A a, B b );", "A f( A a ) { return a; }", "inline A f( A a );", "using X = Y< A, B >;" } }, f);
	prod("init lists", MEMBER, { { "Cx( int x )", "inline Cx( int x, int y )", "explicit Cx( A< B > x )" }, { " : a( 1 ), b( 2 ), c( 3 ), d( 4 ) ", " : a{ 1 }, b{ { 2 } }, c() ", " : A< B, C >( x ), d( f( x, y ) ) ", "\n\t: a( x )\n\t, b( \"{\" )\n", " : a( []( int y ) { return y; } ) " }, { "{ }", "{ f( { 1 } ); }" }, EOLC }, f);
	const L NEST = { "struct C {\nint a;\nstruct D { int b; } d;\nint e;\n};", "struct C { enum D { X, Y }; D d; };", "union C { struct { int a; int b; }; int c[2]; };", "struct C {\n#if A\nint a;\n#if B\nint b;\n#endif\n#else\nint c;\n#endif\n};", "template< class T > struct C { template< class U > U f( U u ); T t; };", "struct C { friend struct D; using E = int; typedef int F; static int g; };", "enum C { X };\n\n// between\n\nenum D { Y };" };
	prod("nesting in namespaces", { GLOBAL, NSPACE }, { { "namespace A {\nnamespace B {\n", "namespace A {\nextern \"C\" {\n" }, NEST, { "\n}\n", "\nint z;\n}\n" }, { "}", "} // end", "int y;\n}" }, { "", "\nint x;" } }, f);
	prod("nesting in records", ALL, { { "class A {\nstruct B {\n", "struct A {\nunion B {\n", "class A {\nprotected:\nclass B : C<D> {\npublic:\n" }, NEST, { "\n};\n", "\nint z;\n};\n" }, { "};", "}; // end", "int y;\n};" } }, f);
	prod("conditional chains", ALL, { { "#if A\nint a;\n", "#ifdef A\n", "#ifndef A\nint f();\n" }, { "#elif B\nint b;\n", "#elif B == 1 && defined( C )\n", "" }, { "#elif D \\\n\t|| E\nint c;\n", "" }, { "#else\nint d;\n", "#else\n", "" }, { "#endif", "#endif // A" }, { "", "\nint e;" } }, f);
	prod("defines with bodies", ALL, { { "#define X( a, b ) \\\n\tdo { \\\n\t\tf( a ); \\\n\t} while ( 0 )", "#define X( ... ) f( __VA_ARGS__ )", "#define X() {", "#define X( a ) # a", "#define X( a, b ) a ## b", "#define X \"\\\"//\"", "#define X '\\''", "#define X /* c */ 1" }, { "\n#define Y X( 1, 2 )", "\nint a;", "" }, { "", "\n#undef X" } }, f);
	prod("deep types", ALL, { { "", "static " }, { "A< B< C< D > > >", "A< B< C< D >>>", "A<B<C<D, E>, F<G>>, H>", "A< B::C< D >::E >::F const* const*", "A< void (*)( int, B< C > ) >", "A< (1 >> 2), B >", "A< sizeof( B< C > ), 'a' >", "A< B&, C*, D&& >", "A< >", "const A< const B* const, int[3] >&", "unsigned long int const*", "struct A::B< C >" }, { " a;", " a = {};", " f();", " f( int b ) { return b; }", " a[2], * b;" } }, f);
}
static const L GDECLS = { "Foo::Foo() { }", "inline A::A(int a) : b(a) { }", "Foo::~Foo() { }", "A::operator int() { return 1; }", "int a = b < c;", "bool a = b > c;", "int a = Foo::Foo(1);", "bool operator<(A a, A b) { return a; }", "A operator>>(A a, B b);", "int A::f() const { return 1; }", "A<B>::A() { }", "A<B> a;", "A a = { 1 };", "int a[2] = { f(1), 2 };", "struct S;", "struct S : A<B> { S(); };", "enum class E : int { A = f(1) };", "template<typename T> T f(T a) { return a < 1; }", "using X = A<B>;", "typedef int (*F)(int);", "void f(int (*a)(int));", "int a, b = f(1);", "static int a;", "[[a]] int f();", "M_STMTF(a < b)", "M_STMT", "int a; // c", "int f(); // Foo::Foo()", "#define X(a) a", "#if A(1)\n#endif", "union U { int a; };", "constexpr int f(int a = (1 < 2)) { return 1; }", "auto a = [](int b) { return b; };", "namespace N { A a; }", "A::B::B(A const& a) : A<B>(a), c{ 1 } { }", "A::B* A::f(B<C> a);", "extern \"C\" { A a; }", "M_BODYF(1) { Foo::Foo(); }" };
static const L MDECLS = { "Cx();", "Cx(int a) : b(a) { }", "~Cx();", "virtual ~Cx() { }", "explicit Cx(A<B> a = 1 < 2);", "operator int() const;", "operator A<B>() { return a; }", "bool operator<(A a) const { return a; }", "A operator()(int a);", "virtual int f() = 0;", "int f() const override;", "int a;", "A<B> a = b < c;", "int a = Cx::Cx(1);", "int a : 3;", "int a[2] = { f(1), 2 };", "static int f();", "friend class A;", "friend bool operator==(A a, B b);", "struct S;", "struct S { Cx(); };", "enum E { A = f(1) };", "template<typename T> T f(T a);", "using X = A<B>;", "typedef int (*F)(int);", "int a, b = f(1);", "[[a]] int f();", "M_STMTF(a < b)", "M_STMT", "int a; // c", "Cx(); // c", "#define X(a) a", "#if A(1)\n#endif", "union { int a; };", "public:", "private:", "Cx(Cx const& a) = default;", "Cx& operator=(Cx const& a) = delete;", "M_BODYF(1) { Cx(); }" };
template<class F> static void neighbours(bool th, F f)
{
	prod("neighbours", { GLOBAL, NSPACE }, { GDECLS, { "\n" }, GDECLS }, f);
	prod("member neighbours", { MEMBER }, { MDECLS, { "\n" }, MDECLS }, f);
	if (th) { prod("triples of neighbours", { GLOBAL }, { GDECLS, { "\n" }, GDECLS, { "\n" }, GDECLS }, f); prod("member triples", { MEMBER }, { MDECLS, { "\n" }, MDECLS, { "\n" }, MDECLS }, f); }
}
template<class F> static void code_bodies(bool th, F f)
{
	const L PIECES = { "", " ", "\n\t", "return 1;", " { a; }", " // c\n", " /* c */", "/* } */", "\n#if A\na;\n#else\nb;\n#endif\n", " s = \"}\";", " c = '{';", " [&]( int a ) { return a; }( 1 );", "if ( a < b && c > d ) { b; } else { c; }", " int a[] = { 1, { 2 } };", "\n\n\nx: y;\n", " a = b ? c::d : ~e;", " // it's \"\n", " struct A { int b; }; using B = A;" };
	const L GHEADS = { "int f()\n", "A::operator int() ", "A::operator B<C>*() const\n", "A::A() ", "A::A( int a )\n\t: b( a )\n", "A::~A()\n", "bool operator==( A a, A b ) ", "A& A::operator=( A const& a )\n", "template< class T > T f( T a ) ", "inline static A<B> f( int a, ... )\n" };
	const L MHEADS = { "int f() const ", "operator int() ", "explicit operator B<C>*() const\n", "Cx() ", "Cx( int a )\n\t: b( a )\n", "~Cx()\n", "virtual ~Cx() ", "bool operator==( A a ) const ", "template< class T > T f( T a ) ", "friend int f( int a ) " };
	prod("bodies of functions", OUTER, { GHEADS, { "{" }, PIECES, PIECES, { "}", "\n}" }, { "", "\nint z;", " // e\nint z;" } }, f);
	prod("bodies of members", MEMBER, { MHEADS, { "{" }, PIECES, PIECES, { "}", "\n}" }, { "", "\nint z;", " // e\nint z;" } }, f);
	if (th) { prod("longer bodies", { GLOBAL }, { { "int f()\n", "A::operator int() ", "A::A( int a ) : b( a ) " }, { "{" }, PIECES, PIECES, PIECES, { "}\nint z;" } }, f); prod("longer bodies of members", MEMBER, { { "int f() ", "operator int() ", "Cx( int a ) : b( a ) ", "friend int f( int a ) " }, { "{" }, PIECES, PIECES, PIECES, { "}\nint z;" } }, f); }
}
// the same with CRLF line ends
static std::string crlf(std::string const& s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\n') r += '\r'; r += s[i]; } return r; }
template<class F> struct Crlf { F f; void operator()(const char* family, Scope const& sc, std::string const& decl) { if (decl.find('\n') == std::string::npos && (!*sc.pre || decl.size() % 5)) { mc::skip_case(); return; } std::string a = crlf(sc.pre), b = crlf(sc.post); Scope c = { sc.name, a.c_str(), b.c_str() }; f((std::string("CRLF ") + family).c_str(), c, crlf(decl)); } };
template<class F> static void everything(bool th, F f)
{
	variables(th, f); functions(th, f); operators(th, f); ctors(th, f); records(th, f); templates(th, f); aliases(th, f); bodies(th, f); preprocessor(th, f); lists(th, f); neighbours(th, f); code_bodies(th, f); unsupported(th, f);
	Crlf<F> g = { f };
	if (th) { variables(th, g); functions(th, g); operators(th, g); ctors(th, g); records(th, g); templates(th, g); aliases(th, g); }
	bodies(th, g); preprocessor(th, g); lists(th, g); neighbours(th, g); code_bodies(th, g); unsupported(th, g);
}
static void macros()
{
	using namespace gen;
	auto reg = [](const char* n, MacroType t, int fl) { Macro m; memset(&m, 0, sizeof m); Str s = { n, (gen::ssize)strlen(n) }; m.Name = cache_str(s); m.Type = t; m.Flags = (MacroFlags)fl; register_macro(m); };
	reg("M_EXPR", MT_Expression, 0); reg("M_EXPRF", MT_Expression, MF_Functional);
	reg("M_STMT", MT_Statement, 0); reg("M_STMTF", MT_Statement, MF_Functional);
	reg("M_TYPE", MT_Typename, 0); reg("M_TYPEF", MT_Typename, MF_Functional);
	reg("M_BODY", MT_Statement, MF_Expects_Body); reg("M_BODYF", MT_Statement, MF_Functional | MF_Expects_Body);
	reg("M_DEFF", MT_Statement, MF_Functional | MF_Allow_As_Definition);
	reg("M_ATTR", MT_Expression, MF_Allow_As_Attribute); reg("M_ATTRF", MT_Expression, MF_Functional | MF_Allow_As_Attribute);
	reg("UPARAM", MT_Expression, MF_Functional); reg("UMETA", MT_Expression, MF_Functional);
}
static void up()
{
	memset(&mc::ctx, 0, sizeof mc::ctx); gen::AllocatorInfo t = mc::temp();
	mc::ctx.Allocator_DyanmicContainers = mc::ctx.Allocator_Pool = mc::ctx.Allocator_StrCache = mc::ctx.Allocator_Temp = t;
	mc::ctx.CodePool_NumBlocks = 512; mc::ctx.SizePer_StringArena = 1 << 16; mc::ctx.InitSize_LexerTokens = 512; mc::ctx.InitSize_CodePoolsArray = 4; mc::ctx.InitSize_StringArenasArray = 4;
	gen::init(&mc::ctx); macros();
}
static void down() { gen::deinit(&mc::ctx); mc::t_free_all(); }
// every specifier, and every two in either order, before and after every form of declaration
// many(few) is told before each part whether it's a small one
template<class G, class F> static void specifiers(G many, F one)
{
	static const char* W[] = { "consteval ", "constexpr ", "constinit ", "explicit ", "extern ", "forceinline ", "global ", "inline ", "internal ", "local_persist ", "mutable ", "neverinline ", "register ", "restrict ", "static ", "thread_local ", "virtual ", "const ", "volatile " };
	static const char* AFTER[] = { "", " const", " volatile", " override", " final", " noexcept", " = 0", " = delete", " = default", " &", " &&" };
	static std::vector<std::string> keep; keep.reserve(1000); L one_, two, uncv, end;
	for (auto a : W) one_.push_back(a);
	for (auto a : W) for (auto b : W) if (a != b) { keep.push_back(std::string(a) + b); two.push_back(keep.back().c_str()); if (keep.back().find("const ") == std::string::npos && keep.back().find("volatile ") == std::string::npos) uncv.push_back(keep.back().c_str()); }
	for (auto a : AFTER) for (auto b : AFTER) if (a != b && !(strchr(a, '=') && strcmp(b, "")) && !(strchr(a, '&') && strchr(b, '&'))) { keep.push_back(std::string(a) + b); end.push_back(keep.back().c_str()); }
	for (int k = 0; k < 2; k++) {
		L& S = k ? two : one_; many(!k);
		prod("function specifiers", ALL, { S, { "int f( int a );", "int f( int a ) { return a; }", "void f();", "A::B* f();" } }, one);
		prod("operator specifiers", ALL, { S, { "bool operator==( A const& b );", "bool operator==( A const& a, A const& b ) { return 1; }", "A& operator[]( int i );" } }, one);
		prod("operator cast specifiers", MEMBER, { S, { "operator bool();", "operator A*() const { return 0; }" } }, one);
		prod("variable specifiers", ALL, { S, { "int a = 1;", "A::B* a[2];" } }, one);
		prod("constructor specifiers", MEMBER, { k ? uncv : one_, { "Cx( int a );", "Cx() { }" } }, one);
		prod("destructor specifiers", MEMBER, { S, { "~Cx();", "~Cx() { }" } }, one);
		prod("friend specifiers", MEMBER, { { "friend " }, S, { "int f( int a );", "int f( int a ) { return a; }", "bool operator==( A const& b );" } }, one);
		prod("template specifiers", ALL, { { "template< class T > " }, S, { "T f( T a );", "T f( T a ) { return a; }", "T a = 1;", "bool operator==( T const& b );" } }, one);
		prod("function parameter specifiers", OUTER, { { "void f( " }, S, { "int a );", "A::B* a = 0 ) { }" } }, one);
		prod("typedef specifiers", OUTER, { { "typedef " }, S, { "int A;" } }, one);
		prod("using specifiers", OUTER, { { "using A = " }, S, { "int;", "A::B*;" } }, one);
		prod("struct specifiers", { GLOBAL }, { { "struct A { " }, S, { "int a : 3; };", "A* b; };" } }, one);
	}
	many(true);
	prod("function trailing specifiers", MEMBER, { { "", "virtual " }, { "int f( int a )" }, end, { ";", " { return a; }" } }, one);
	prod("operator trailing specifiers", MEMBER, { { "", "virtual " }, { "bool operator==( A const& b )" }, end, { ";", " { return 1; }" } }, one);
	prod("operator cast trailing specifiers", MEMBER, { { "", "virtual " }, { "operator bool()" }, end, { ";", " { return 1; }" } }, one);
	prod("destructor trailing specifiers", MEMBER, { { "", "virtual " }, { "~Cx()" }, end, { ";", " { }" } }, one);
	prod("constructor trailing specifiers", MEMBER, { { "", "explicit " }, { "Cx()" }, end, { ";", " { }" } }, one);
}
}
