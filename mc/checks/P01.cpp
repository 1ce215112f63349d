// P01: parsing a declaration and serializing the result gives back its tokens, comments included.
// A form the parser rejects (a diagnostic, nothing produced) is outside of what it supports: those are listed in
// P01.rejects.inc, and every form that is not listed has to be accepted.
#include "gram.hpp"
#include "forms.hpp"
#include "collide.hpp"
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
static const unsigned long long REJECTS[] = {
#include "P01.rejects.inc"
	0xffffffffffffffffull };
static bool may_reject(unsigned long long h) { return std::binary_search(REJECTS, REJECTS + sizeof REJECTS / sizeof *REJECTS, h); }
static void record(unsigned long long h) { if (const char* p = getenv("MC_RECORD")) { int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0644); char b[32]; int n = snprintf(b, sizeof b, "0x%016llxull,\n", h); if (write(fd, b, n)) {} close(fd); } }
using namespace gen;
const char* mc::PROPERTY = "P01";
static void judge(std::string const& key, std::string const& src, bool refusable = false)
{
	if (!mc::begin(key)) return;
	gram::up();
	std::string out; bool rej = false;
	mc::ExactZ z(src);
	bool f = mc::fatal([&] { CodeBody b = parse_global_body(z.s); if (b.ast == nullptr || Code{(AST*)b.ast} == Code_Invalid) rej = true; else { z.wipe(); out = mc::SB_(code_to_strbuilder(Code{(AST*)b.ast})); } });   // (the code doesn't depend on the text it was parsed from)
	mc::transition();
	if (f || rej) { std::string form; for (char c : mc::cur_desc) if (c != '\r') form += c; if (form.compare(0, 5, "CRLF ") == 0) form.erase(0, 5); /* (the line ends decide nothing) */
		unsigned long long h = mc::hash_str(form); if (!refusable) record(h); mc::count(0); if (!refusable && !may_reject(h)) mc::violation(mc::cur_desc, "rejected " + w32::std_err.substr(0, 300)); }
	else { std::string d = ref::diff(ref::toks(src), ref::toks(out)); if (!d.empty()) mc::violation(mc::cur_desc, d + "\n" + out); else { mc::trace_ok(); mc::state(mc::hash_str(out)); mc::outcome(mc::hash_str(out)); } }
	gram::down();
}
static void one(const char* family, gram::Scope const& sc, std::string const& decl) { judge(std::string(family) + " in " + sc.name + ": " + decl, sc.pre + decl + sc.post); }
// forms with one part (@) of a length around every buffer it may go through, or repeated that often
static void lengths(bool thorough)
{
	static const char* F[] = { "int @;", "int @( int a );", "int f( int @ );", "int a = \"@\";", "int a = f( @ );", "int f() { @; }", "// @", "/* @ */", "int a; // @", "#define @ 1", "#define A @", "#define A( @ ) 1", "#define A( a, @ ) 1", "static_assert( @ );", "M_STMTF( @ );", "#if @\n#endif", "#pragma @", "#include <@>", "[[@]] int a;", "struct @;", "struct A { int @; };", "struct A : B, @ { };", "struct A : @ { };", "class A { A() : a( @ ) { } };", "class A { A( int a = @ ); };", "class A { ~A() { @; } };", "class A { operator @() const; };", "class A { operator int() { @; } };", "class @ { void f(); };", "enum A { @ };", "enum A { B = @ };", "enum A : @ { B };", "namespace @ { int a; }", "extern \"@\" { int a; }", "using A = @;", "using @ = int;", "typedef int @;", "typedef int (*@)( int );", "typedef A<@> B;", "template<typename @> struct A;", "template<int a = @> struct A;", "A<@> b;", "int a[ @ ];", "struct A { int a : @; };", "bool operator==( A a, @ b );", "@ operator+( A a );", "A @::operator+( A a ) { return a; }", "@::@() { }", "@ a, b;", "__attribute__((@)) int a;", "decltype( @ ) a;", "union @ { int a; };", "using namespace @;", "class A { friend class @; };", "int a = { @ };", "M_BODYF( @ ) { int a; }", "#undef @", "#error @" };
	static const std::vector<int> LEN = { 127, 128, 255, 256, 511, 512, 1022, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 65535, 65536, 70000, 524287, 524288, 600000 };
	for (auto f : F) for (auto& sc : gram::ALL) for (int n : LEN) {
		bool outer = strncmp(f, "extern", 6) == 0 || strncmp(f, "namespace", 9) == 0 || strstr(f, "@::") || strncmp(f, "using namespace", 15) == 0;
		if (!mc::mine() || (strcmp(sc.name, "global") && !(thorough && n < 5000 && !outer))) { mc::skip_case(); continue; }
		std::string w(n, 'x'), src = f; for (size_t p; (p = src.find('@')) != std::string::npos;) src.replace(p, 1, w);
		judge(mc::sfmt("%s in %s with %d characters", f, sc.name, n), sc.pre + src + sc.post); }
	struct R { const char *a, *r, *sep, *b; };
	static const R G[] = {  { "", "static ", "", "int a;" }, { "", "inline ", "", "int f();" }, { "int ", "*", " ", " a;" }, { "int ", "const ", "", "a;" }, { "int ", "* const ", "", "a;" }, { "int f() ", "const ", "", ";" }, { "struct A { int f() ", "const ", "", "{ return 1; } };" }, { "struct A { ", "virtual ", "", "int f(); };" }, { "struct A { ", "inline ", "", "A(); };" }, { "struct A { ", "inline ", "", "~A(); };" }, { "struct A { ", "inline ", "", "operator int(); };" }, 
		{ "struct A { ", "inline ", "", "bool operator==( A a ); };" }, { "template<class T> ", "inline ", "", "int f();" }, { "typedef ", "unsigned ", "", " int A;" }, { "", "long ", "", "a;" }, { "", "[[a]] ", "", "int a;" }, { "", "M_ATTR ", "", "int a;" }, { "struct A : ", "B", ", ", " { };" }, { "class A : ", "public B", ", ", " { };" }, { "int f( ", "int a", ", ", " );" }, { "int f( ", "int", ", ", ", ... );" }, { "template< ", "typename A", ", ", "> struct S;" }, { "enum A { ", "B", ", ", "};" }, { "int ", "a", ", ", ";" }, { "int a", "[ 1 ]", "", ";" }, { "#define A( ", "b", ", ", " ) 1" }, { "#define A ", "b \\\n", "", "c" }, { "", "int a;\n", "", "" }, { "struct A {\n", "int a;\n", "", "};" }, { "", "// c\n", "", "int a;" }, { "", "\n", "", "int a;" }, { "A", "::B", "", " a;" }, { "int a = ", "(", "", "" }, { "struct A { int ", "a : 1", ", ", "; };" }, { "struct A { A() : ", "b( 1 )", ", ", " { } };" },
		{ "", "#if A\n", "", "int a;" }, { "extern \"C\" {\n", "int f();\n", "", "}" }, { "namespace N {\n", "using A = B;\n", "", "}" }, { "static_assert( ", "a", " + ", " );" }, { "M_STMTF( ", "a", ", ", " );" }, { "struct A { friend ", "inline ", "", "int f(); };" }, { "struct A { ", "friend class B;\n", "", "};" }, { "struct A { ", "public:\n", "", "};" }, { "", "typedef int A;\n", "", "" }, { "", "#define A 1\n", "", "" }, { "", "#pragma a\n", "", "" }, { "export {\n", "int a;\n", "", "}" }  };
	for (auto& f : G) for (int n = 2; n < 4200; n = n < 20 || thorough && n < 300 ? n + 1 : n < 64 ? 64 : n * 2 - (n % 2 ? 2 : 1)) for (int around = 0; around < (n < 64 ? 1 : 3); around++) {
		if (!mc::mine()) { mc::skip_case(); continue; }
		int k = n + around - (n < 64 ? 0 : 1); std::string src = f.a; for (int i = 0; i < k; i++) { if (i) src += f.sep; src += f.r; } src += f.b;
		if (std::string(f.r) == "(") src += "1" + std::string(k, ')') + ";"; if (std::string(f.r) == "#if A\n") for (int i = 0; i < k; i++) src += "\n#endif";
		judge(mc::sfmt("%s(%s)%s, %d of them", f.a, f.r, f.b, k), src, k > 7 && strstr("static inline const virtual * * const ", f.r)); }   // (at most fourteen specifiers are taken)
}
// identifiers which look like something else: names of directives, of the parser's own tokens, and names with the length and checksum of a keyword
static void identifiers(bool thorough)
{
	std::vector<std::string> W = { "define", "include", "ifdef", "ifndef", "elif", "endif", "pragma", "undef", "error", "line", "warning", "defined", "once", "region", "INVALID", "__comment__", "__comment_end__", "__comment_start__", "__invalid__", "__identifier__", "__number__", "__operator__", "__new_line__", "__string__", "__character__", "__define_param__", "__macro_content__", "__macro_expression__", "__macro_statment__", "__macro_typename__", "__unsupported__", "__attrib_start__", "M_EXP", "M_STMTS", "int_", "_int", "Int", "structs", "clas", "class1", "operator_", "u8", "s32", "L", "R", "u8R", "x", "e1", "xFF", "l0" };
	static const char* K[] = { "int", "struct", "class", "enum", "union", "typedef", "using", "namespace", "template", "operator", "static", "inline", "const", "virtual", "public", "private", "protected", "friend", "define", "final", "override", "signed", "unsigned", "long", "short", "volatile", "mutable", "explicit", "extern", "decltype", "static_assert", "consteval", "constexpr", "constinit", "__attribute__", "__declspec", "asm", "typename", "export", "import", "module", "register", "global", "char", "double", "do", "auto", "void", "include" };
	for (auto k : K) { std::string t = collide::with_checksum_of(k); if (!t.empty()) W.push_back(t); }
	static const char* F[] = { "int @;", "int @();", "int f( int @ );", "struct @;", "struct @ { };", "class @ { @(); ~@(); };", "union @ { int a; };", "enum A { @ };", "enum A { B = @, C };", "@ a;", "const @* a = 0;", "@ f( @ a );", "int a = @;", "using @ = int;", "using A = @;", "typedef int @;", "typedef @ A;", "int f() { @; }", "int f() { return @( 1 ); }", "struct A { int @; };", "struct A { int @() const; };", "struct A : @ { };", "A::@ b;", "int a = f( @, 1 );", "#define @ 1\nint a = @;", "#define A( @ ) @\n", "#define A @\nint b;", "#undef @\n", "#if @\nint a;\n#endif\n", "#pragma @\n", "template<class @> struct A;", "template<int @ = 1> struct A;", "A<@> b;", "[[@]] int a;", "static_assert( @ );", "int a[ @ ];", "// @\nint a; // @", "@ a, b;", "struct A { @ b : 1; };", "int @, @1;" };
	static const char* G[] = { "namespace @ { int a; }", "using namespace @;", "@::@() { }", "int @::f() { return 1; }", "extern \"@\" { int a; }" };
	for (auto& sc : gram::ALL) for (auto& w : W) for (int i = 0; i < (int)(sizeof F / sizeof *F + sizeof G / sizeof *G); i++) {
		bool g = i >= (int)(sizeof F / sizeof *F); const char* f = g ? G[i - sizeof F / sizeof *F] : F[i];
		if (!mc::mine() || (strcmp(sc.name, "global") && (g || !thorough))) { mc::skip_case(); continue; }
		std::string src = f; for (size_t p; (p = src.find('@')) != std::string::npos;) src.replace(p, 1, w);
		judge(mc::sfmt("%s in %s for %s", f, sc.name, w.c_str()), sc.pre + src + sc.post); }
}
void explore(bool thorough) { lengths(thorough); identifiers(thorough); mc::counter_names[0] = "rejected"; gram::everything(thorough, one); bool few = true; gram::specifiers([&](bool f) { few = f; }, [&](const char* family, gram::Scope const& sc, std::string const& decl) { judge(std::string(family) + " in " + sc.name + ": " + decl, sc.pre + decl + sc.post, !few); }); }
