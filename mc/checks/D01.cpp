// D01: what a refused text is reported with: every declaration form broken at every token, in every scope, behind other declarations
// and after other texts.
#include "gram.hpp"
#include <functional>
#include <algorithm>
using namespace gen; typedef std::string S;
const char* mc::PROPERTY = "D01";
static char* g_buf; static size_t g_len; static FILE* g_mem;
static S taken() { fflush(g_mem); S r(g_buf, (size_t)ftell(g_mem)); rewind(g_mem); return r + w32::std_err; }
struct Unit { size_t at, n; };
static std::vector<Unit> units(S const& s)   // words, numbers, literals, single characters
{
	std::vector<Unit> v; size_t i = 0;
	while (i < s.size()) {
		if (isspace((unsigned char)s[i])) { i++; continue; }
		size_t e = i + 1;
		if (isalnum((unsigned char)s[i]) || s[i] == '_') while (e < s.size() && (isalnum((unsigned char)s[e]) || s[e] == '_')) e++;
		else if (s[i] == '"' || s[i] == '\'') { while (e < s.size() && s[e] != s[i] && s[e] != '\n') e++; if (e < s.size()) e++; }
		v.push_back({ i, e - i }); i = e; }
	return v;
}
static bool parse(S const& src) { mc::Exact z(src); bool rej = false; bool f = mc::fatal([&] { CodeBody b = parse_global_body(z.s); rej = b.ast == nullptr || Code{ (AST*)b.ast } == Code_Invalid; }); return f || rej; }
static size_t at_line(S const& s, int line) { size_t p = 0; while (--line > 0) { p = s.find('\n', p); if (p == S::npos) return p; p++; } return p; }
static void bad(S const& src, S const& what, S const& msg) { mc::violation(mc::cur_desc + " | " + src, what + "\n" + msg.substr(0, 600)); }
// src is refused from the declaration beginning in first_line
static void judge(S const& src, int first_line, S const& msg, bool tail)
{
	if (msg.find_first_not_of(" \n\t") == S::npos) { bad(src, "refused without a word", msg); return; }
	bool any = false, ended = msg.find("No tokens left") != S::npos;   // (then the place is where the text ended)
	for (size_t p = 0; (p = msg.find('(', p)) != S::npos; p++) {
		int L, C, n = 0; if (sscanf(msg.c_str() + p, "(%d, %d)%n", &L, &C, &n) != 2 || !n) continue;
		size_t before = p; while (before && msg[before - 1] == ' ') before--;
		any = true; size_t o = L > 0 ? at_line(src, L) : S::npos;
		if (o == S::npos || C < 1 || o + C - 1 > src.size() || src.substr(o, C - 1).find('\n') != S::npos) { bad(src, mc::sfmt("a place (%d, %d) that is not in the text", L, C), msg); return; }
		o += C - 1; if (o == src.size()) continue;
		if (ended) { if (src.find_first_not_of(" \t\n", o) == S::npos) continue; }
		if (msg.find("gen::lex:") != S::npos) continue;   // (while reading: where it stopped)
		if (isspace((unsigned char)src[o])) { bad(src, mc::sfmt("a place (%d, %d) between the tokens", L, C), msg); return; }
		if (o && (isalnum((unsigned char)src[o]) || src[o] == '_') && (isalnum((unsigned char)src[o - 1]) || src[o - 1] == '_')) { bad(src, mc::sfmt("a place (%d, %d) within a word", L, C), msg); return; }
		if (L < first_line && !(ended && src.find_first_not_of(" \t\n", src.find_first_of(" \t\n", o)) == S::npos)) { bad(src, mc::sfmt("the place (%d, %d) of an earlier declaration", L, C), msg); return; }
		size_t q = msg.rfind(" not ' ", p); if (q != S::npos && msg.find('\n', q) > p) { q += 7; size_t e = msg.rfind(" ' ", p); if (e != S::npos && e + 1 >= q) { S t = msg.substr(q, e - q); if (src.compare(o, t.size(), t) != 0) { bad(src, mc::sfmt("\"%s\" is not what stands at (%d, %d)", t.c_str(), L, C), msg); return; } } }
	}
	if (!any) { mc::count(1); if (getenv("MC_NOPLACE")) bad(src, "no place", msg); }
	mc::trace_ok(); mc::state(mc::hash_str(msg)); mc::outcome(mc::hash_str(src));
}
static const std::vector<const char*> FORMS = {
	"int a = 1;", "int a, b;", "A<int>::B* x[ 2 ];", "static const int y { 1, 2 };", "int f( int a, char const* b = \"x\" );", "inline int f( void )\n{\n\treturn 1;\n}", "template<typename T, int N>\nT f( T a );",
	"struct A\n{\n\tint a;\n\tvoid g() const;\n};", "class A : public B, private C\n{\npublic:\n\tA( int a ) : x( a ) {}\n\t~A();\n\toperator int() const;\nprivate:\n\tint x : 3;\n};", "enum E : int\n{\n\tX = 1,\n\tY,\n};", "enum class E;", "union U\n{\n\tint a;\n\tfloat b;\n};",
	"using X = int ( int );", "using namespace A;", "typedef int ( *F )( int );", "typedef struct A { int a; } B;", "namespace N\n{\n\tint a;\n}", "extern \"C\"\n{\n\tint f();\n}", "friend class A;", "bool operator==( A a, B b );", "A operator+( A a )\n{\n\treturn a;\n}", "#define X( a ) a\nint x;", "#if A\nint b;\n#endif", "#include <a.h>\nint x;",
	"[[nodiscard]] int f();", "__attribute__((x)) int a;", "class C;", "static_assert( 1, \"x\" );", "M_STMTF( 1 );", "decltype( a ) b;" };
struct Entry { const char* name; std::function<Code(Str)> f; std::vector<const char*> texts; };
#define EP(X, ...) { #X, [](Str s) { return Code{ (AST*)X(s).ast }; }, __VA_ARGS__ }
static const std::vector<Entry> ENTRIES = {
	EP(parse_class, { "class A;", "class A : public B\n{\npublic:\n\tint a;\n\tA();\n};" }), EP(parse_struct, { "struct A;", "struct A\n{\n\tint a;\n};" }), EP(parse_union, { "union U\n{\n\tint a;\n};" }), EP(parse_enum, { "enum E : int;", "enum class E\n{\n\tA = 1,\n\tB\n};" }),
	EP(parse_constructor, { "A( int a );", "A::A( int a )\n\t: b( a )\n{\n}" }), EP(parse_destructor, { "~A();", "A::~A()\n{\n}" }), EP(parse_friend, { "friend class A;", "friend int f( int a );" }), EP(parse_function, { "int f( int a, ... );", "inline int f()\n{\n\treturn 1;\n}" }),
	EP(parse_namespace, { "namespace A\n{\n\tint a;\n}" }), EP(parse_operator, { "bool operator==( A a, B b );", "A A::operator++()\n{\n}" }), EP(parse_operator_cast, { "operator int() const;", "A::operator B*()\n{\n}" }), EP(parse_template, { "template<typename T, int N = 1>\nstruct A;", "template<class T>\nT f( T a );" }),
	EP(parse_typedef, { "typedef int ( *F )( int a );", "typedef struct A { int a; } B;" }), EP(parse_using, { "using A = B<int>;", "using namespace A;" }), EP(parse_variable, { "static int a = 1;", "A<B>::C* a[ 2 ];" }), EP(parse_extern_link, { "extern \"C\"\n{\n\tint f();\n}" }), EP(parse_export_body, { "export\n{\n\tint f();\n}" }),
	EP(parse_define, { "#define Q( r, s ) r s" }), EP(parse_type, { "unsigned long long const*", "A<B, C*>::D&" }), EP(parse_global_body, { "int a;\nint f();" }) };
static bool parse_by(Entry const& e, S const& src) { mc::Exact z(src); bool rej = false; bool f = mc::fatal([&] { Code c = e.f(z.s); rej = c.ast == nullptr || c == Code_Invalid; }); return f || rej; }
static void entry_points(bool thorough)
{
	static const std::vector<const char*> INS = { ")", "}", "5", "x", ";", ",", "(", "{", "<", "=", "::", "class", "operator", "\"s\"", "*", "[", ":" };
	for (size_t ei = 0; ei < ENTRIES.size(); ei++) for (const char* form : ENTRIES[ei].texts) { Entry const& E = ENTRIES[ei];
		S d = form; std::vector<Unit> u = units(d);
		for (size_t i = 0; i <= u.size(); i++) {
			if (!mc::mine()) { mc::skip_case(); continue; }
			if (!mc::begin(S(E.name) + " of " + mc::sfmt("%s broken at %d", form, (int)i))) continue;
			std::vector<S> v; size_t at = i < u.size() ? u[i].at : d.size(), n = i < u.size() ? u[i].n : 0;
			if (n) { v.push_back(d.substr(0, at) + d.substr(at + n)); v.push_back(d.substr(0, at)); }
			for (auto x : INS) v.push_back("\n" + d.substr(0, at) + S(x) + " " + d.substr(at));
			for (size_t k = 0; k < v.size(); k++) { S const& src = v[k];
				if (src.find_first_not_of(" \n\t") == S::npos) continue;
				gram::up(); taken(); bool rej = parse_by(E, src); mc::transition(); S msg = taken(); gram::down();
				if (!rej) { mc::count(0); continue; }
				judge(src, 1, msg, false);
				// the same after each of the functions was used
				for (size_t h = 0; h < ENTRIES.size(); h++) { if (!thorough && (h + k + i) % 4) continue; Entry const& H = ENTRIES[h]; if (S(H.name) == "parse_define" && S(E.name) == H.name) continue; /* (what it defines is remembered) */ const char* ht = H.texts[(i + k) % H.texts.size()]; gram::up(); if (parse_by(H, ht)) { bad(src, S("the text before was refused: ") + H.name + " " + ht, taken()); gram::down(); break; } taken(); bool r2 = parse_by(E, src); S m2 = taken(); gram::down(); mc::transition(); if (!r2 || m2 != msg) { bad(src, S("reported differently after ") + H.name + " " + ht, msg + "\n" + m2); break; } }
			} } }
}
void explore(bool thorough)
{
	mc::counter_names[0] = "accepted"; mc::counter_names[1] = "refused without a place";
	g_mem = open_memstream(&g_buf, &g_len); stderr = g_mem;
	entry_points(thorough);
	static const std::vector<const char*> INS = { ")", "}", "5", "x", ";", ",", "(", "{", "<", ">", "=", "::", "class", "operator", "\"s\"", "*", "[", ":", "enum", "int", "const" };
	static const std::vector<const char*> BEFORE = { "", "int z;\n", "// about\n\nstruct Z\n{\n\tint z; // z\n};\n\n", "#define Z( a ) \\\n\ta\n/* two\nlines */\n\tint z = 1;\n", "#if Z // z\r\nint z;\r\n#else \r\n// y\r\nint y;\r\n#endif\r\n" };
	static const std::vector<const char*> HIST = { "int h;", "struct H { int a; H( int b ); }; int H::f() { return 1; }", "template<class T> using X = A<T>; typedef int Y; namespace N { enum E { A, B }; }", "#define W 1\n#if W\nextern \"C\" { int g( int a, ... ); }\n#endif" };
	for (const char* form : FORMS) for (auto& sc : gram::ALL) for (size_t b = 0; b < BEFORE.size(); b++) for (int tail = 0; tail < (thorough ? 2 : 1); tail++) {
		S d = form; std::vector<Unit> u = units(d);
		for (size_t i = 0; i <= u.size(); i++) {
			if (!mc::mine()) { mc::skip_case(); continue; }
			if (!mc::begin(mc::sfmt("%s broken at %d, %s, behind %d", form, (int)i, sc.name, (int)b) + (tail ? ", declarations behind" : ""))) continue;
			std::vector<S> v; size_t at = i < u.size() ? u[i].at : d.size(), n = i < u.size() ? u[i].n : 0;
			if (n) { v.push_back(d.substr(0, at) + d.substr(at + n)); v.push_back(d.substr(0, at)); }
			for (auto x : INS) { v.push_back(d.substr(0, at) + S(x) + " " + d.substr(at)); if (n && thorough) v.push_back(d.substr(0, at) + " " + S(x) + " " + d.substr(at + n)); }
			for (size_t k = 0; k < v.size(); k++) {
				S src = S(sc.pre) + BEFORE[b] + v[k] + (tail ? "\nint tail;\n" : "") + (n && k == 1 ? "" : sc.post); S first = S(sc.pre) + BEFORE[b]; int line = 1 + (int)std::count(first.begin(), first.end(), '\n');
				if (src.find_first_not_of(" \n\t") == S::npos) continue;
				if (sc.pre[0] && (form[0] == '#' || std::count(src.begin(), src.end(), '{') != std::count(src.begin(), src.end(), '}'))) line = 1;   // the scope itself may be what is broken
				gram::up(); taken(); bool rej = parse(src); mc::transition(); S msg = taken(); gram::down();
				if (!rej) { mc::count(0); continue; }
				judge(src, line, msg, tail);
				// the same after other texts
				size_t hn = thorough ? HIST.size() : 1; for (size_t h = 0; h < hn; h++) { const char* H = HIST[(i + k + h) % HIST.size()]; gram::up(); if (parse(H)) { bad(src, S("the text before was refused: ") + H, ""); gram::down(); break; } taken(); bool r2 = parse(src); S m2 = taken(); gram::down(); mc::transition(); if (!r2 || m2 != msg) { bad(src, S("reported differently after ") + H, [&] { size_t k = 0; while (k < msg.size() && k < m2.size() && msg[k] == m2[k]) k++; return msg.substr(k > 30 ? k - 30 : 0, 80) + " // " + m2.substr(k > 30 ? k - 30 : 0, 80); }()); break; } }
			} } }
}
