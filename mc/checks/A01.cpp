// A01: comparing, duplicating and describing code. Definitions are written from the alternatives of their parts; two are
// equal exactly if the same alternatives were chosen (alternatives that differ only in raw text: either answer).
#include "kinds.hpp"
using namespace gen; using namespace kinds;
const char* mc::PROPERTY = "A01";
struct Alt { S text; int id; };
typedef std::vector<Alt> Slot;
struct Def { S text; std::vector<int> ids; };
// "a|b|~c": alternatives; one that starts with ~ differs from the one before it only in raw text
static Slot slot(const char* spec)
{
	Slot r; S cur; int id = 0; auto push = [&] { bool same = !cur.empty() && cur[0] == '~'; if (!same) id++; r.push_back({ same ? cur.substr(1) : cur, id }); cur.clear(); };
	for (const char* p = spec; *p; p++) if (*p == '|') push(); else cur += *p; push(); return r;
}
struct Family { const char* name; int scope; std::vector<const char*> parts; const char* post; };   // scope: 1 global, 2 member, 3 both
static std::vector<Family> families()
{
	return {
		{ "variable", 3, { "|static ", "int|A::B|A<int>|char const*|int*|int&|int**", " a| b", "| = 1|~ = 2|~{ 1 }|[1]|~[2]|[1][2]" }, ";" },
		{ "variable attributes", 3, { "|[[a]] |~[[b]] ", "int a|int b" }, ";" },
		{ "variable list", 3, { "int a", "|, b|, c|, b, c|, * b|, b = 1|~, b = 2|, b[2]" }, ";" },
		{ "bitfield", 2, { "int a|int b|unsigned a", "| : 1|~ : 2", "|~, c : 3" }, ";" },
		{ "function", 3, { "|static |inline ", "void|int|A::B&", " f| g", "()|(int a)|(int b)|(char a)|(int* a)|(int a, int b)|(int a, int c)|(int a, char b)|(int a, int b, int c)|(int)|(int a = 1)|~(int a = 2)|(int a, int b = 1)|(...)" }, ";" },
		{ "function body", 3, { "void|int", " f| g", "()|(int a)", " { }| { a(); }|~ { b(); }" }, "" },
		{ "function attributes", 3, { "|[[a]] |~[[b]] ", "void f()|void g()" }, ";" },
		{ "method", 2, { "|virtual ", "void f()", "| const| override| const override| = 0| const volatile" }, ";" },
		{ "constructor", 2, { "Cx()|Cx(int a)|Cx(int b)|Cx(int a, int b)", " { }| { x(); }|;| : a(1) { }|~ : b(1) { }" }, "" },
		{ "destructor", 2, { "|virtual ", "~Cx()", ";| { }| { x(); }" }, "" },
		{ "operator", 1, { "A|B", " operator ", "+|-|*|==|+=|<<", "( A a, A b )|( A a, B b )|( A a, A c )|( A const& a, A b )", ";| { return a; }" }, "" },
		{ "member operator", 2, { "A|B", " operator ", "+|-|==|+=", "( A a )|( B a )|( A b )", "| const", ";| { return a; }" }, "" },
		{ "operator cast", 2, { "|explicit ", "operator int()|operator A()|operator int*()", "| const", ";| { return a; }" }, "" },
		{ "class", 3, { "class A|class B|struct A", "| final", "| : public B| : private B| : public C| : public B, public D| : public B, public E| : public B, private D| : public B, public D, public E", " { }| { int a; }| { int b; }| { int a; int b; }| { int b; int a; }| { public: int a; }| { private: int a; }" }, ";" },
		{ "record forward", 3, { "class |struct |union ", "A|B" }, ";" },
		{ "enum", 3, { "enum |enum class ", "A|B", "| : int| : char", " { X }|~ { Y }" }, ";" },
		{ "enum forward", 3, { "enum |enum class ", "A|B", " : int| : char" }, ";" },
		{ "union", 3, { "union ", "A|B|", " { int a; }| { int b; }| { int a; int b; }" }, ";" },
		{ "using", 3, { "using ", "A|B", " = ", "int|int*|C|C<D>|int&" }, ";" },
		{ "using namespace", 1, { "using namespace ", "A|B|A::B" }, ";" },
		{ "typedef", 3, { "typedef ", "int|char|int*|A::B", " A| B" }, ";" },
		{ "typedef function", 1, { "typedef ", "int A(|char A(|int B(", "int a)|int b)|char a)|)|int a, int b)" }, ";" },
		{ "typedef record", 1, { "typedef ", "struct A |struct B |struct |union A ", "{ int a; }|{ int b; }|{ int a; int b; }", " X| Y" }, ";" },
		{ "template", 1, { "template<", "typename T|typename U|class T|int T|typename T, typename U|typename T, int U|typename... T|typename T = A", "> ", "struct A { T a; };|struct B { T a; };|struct A { T b; };|T f(T a);|T f(T b);|T g(T a);|T a;|using A = T;|class A { T a; };|struct A;" }, "" },
		{ "namespace", 1, { "namespace ", "A|B", " { int a; }| { int b; }| { int a; int b; }| { }| { void f(); }" }, "" },
		{ "extern linkage", 1, { "extern ", "\"C\"|\"C++\"", " { int a; }| { int b; }| { int a; int b; }" }, "" },
		{ "friend", 2, { "friend ", "class A|~struct A|class B|void f()|void g()|void f(int a)" }, ";" },
		{ "define", 3, { "#define ", "A|C|B()|B(x)|B(y)|B(x, y)|D(x)", " 1|~ 2|~" }, "\n" },
		{ "directive", 3, { "#include <a.h>|~#include <b.h>|#pragma once|~#pragma other|#if 1\n#endif|~#if 2\n#endif|#ifdef A\n#endif|#ifndef A\n#endif|#if 1\n#else\n#endif|#if 1\n#elif 2\n#endif" }, "\n" },
		{ "sequence", 3, { "int a;|int b;|void f();", "|int c;|void g();|using X = int;", "|int d;|struct S { };" }, "" },
		{ "access", 2, { "public:|private:|protected:", " int a;|int b;" }, "" },
		{ "comment", 3, { "// c\n|~// d\n|", "int a;|int b;" }, "" },
	};
}
struct Wrap { const char* name; int scope; const char* pre; const char* post; };
static const Wrap WRAPS[] = { { "alone", 1, "", "" }, { "in a namespace", 1, "namespace N\n{\n", "\n}" }, { "in an extern linkage", 1, "extern \"C\"\n{\n", "\n}" }, { "in a class", 2, "class Cx\n{\npublic:\n", "\n};" }, { "in a struct in a namespace", 2, "namespace N { struct Cx\n{\n", "\n}; }" } };
static S text(Code c) { return mc::SB_(code_to_strbuilder(c)); }
static void describe(S const& key, Code c)
{
	Str d = code_debug_str(c); S s = mc::S_(d);
	S ty = mc::S_(code_type_str(c)); if (s.find(ty) == S::npos) mc::violation(key, "the description does not say what kind it is: " + s.substr(0, 300));
	if (c->Type != CT_Specifiers && c->Name.Len > 0 && s.find(mc::S_(c->Name)) == S::npos) mc::violation(key, "the description does not have the name: " + s.substr(0, 300));
}
static void duplicate(S const& key, Code c)
{
	S was = text(c); Code p = c->Parent; Code d = code_duplicate(c); S now = text(d); bool body = code_is_body(c);
	if (d.ast == c.ast) mc::violation(key, "the duplicate is the original");
	if (now != was && !body && ref::toks(now) != ref::toks(was)) mc::violation(key, "the duplicate is written as " + now + " instead of " + was);
	if (text(c) != was) mc::violation(key, "duplicating changed the original");
	if (c->Parent.ast != p.ast) mc::violation(key, "duplicating changed the parent of the original");
	if (!code_is_equal(c, d) || !code_is_equal(d, c)) mc::violation(key, "the duplicate is not equal to the original: " + was);
}
static Code parse(S const& src, std::vector<mc::Exact*>& keep) { mc::Exact* x = new mc::Exact(src); keep.push_back(x); return K(parse_global_body(x->s)); }
static void compare(bool th)
{
	for (auto& f : families()) for (auto& w : WRAPS) {
		if (!(f.scope & w.scope)) continue;
		std::vector<Slot> sl; for (auto p : f.parts) sl.push_back(slot(p));
		std::vector<Def> defs; std::vector<size_t> ix(sl.size(), 0);
		for (;;) {
			Def d; for (size_t i = 0; i < sl.size(); i++) { d.text += sl[i][ix[i]].text; d.ids.push_back(sl[i][ix[i]].id); } d.text = S(w.pre) + d.text + f.post + w.post; defs.push_back(d);
			int k = (int)sl.size() - 1; for (; k >= 0; k--) { if (++ix[k] < sl[k].size()) break; ix[k] = 0; } if (k < 0) break;
		}
		const size_t ROWS = 16;
		for (size_t a0 = 0; a0 < defs.size(); a0 += ROWS) {
			S key = S(f.name) + " " + w.name + mc::sfmt(" %zu", a0); if (!mc::begin(key)) continue;
			std::vector<mc::Exact*> keep; std::vector<char> ok(defs.size());
			for (size_t i = 0; i < defs.size(); i++) { gram::up(); Code c = { nullptr }; ok[i] = !mc::fatal([&] { c = parse(defs[i].text, keep); }) && c.ast && c != Code_Invalid; gram::down(); }
			gram::up(); std::vector<Code> c1(defs.size(), Code{ nullptr }), c2 = c1; size_t bad = 0;
			for (size_t i = 0; i < defs.size(); i++) {
				bool t = !ok[i] || mc::fatal([&] { c1[i] = parse(defs[i].text, keep); c2[i] = parse(defs[i].text, keep); });
				if (t || !c1[i].ast || !c2[i].ast || c1[i] == Code_Invalid) { c1[i].ast = nullptr; if (!bad++ && a0 == 0 && getenv("MC_ALLV")) fprintf(stderr, "REJECT %s\n", defs[i].text.c_str()); }
			}
			mc::count(0, bad);
			for (size_t a = a0; a < defs.size() && a < a0 + ROWS; a++) if (c1[a].ast) {
				S k = key + ": " + defs[a].text;
				bool t = mc::fatal([&] { std::function<void(Code)> each = [&](Code c) { describe(k, c); duplicate(k, c); if (code_is_body(c)) { CodeBody b = as<CodeBody>(c); s32 n = b->NumEntries; for (Code e = b->Front; n-- > 0; e = e->Next) each(e); } }; each(c1[a]); });
				if (t) mc::violation(k, "a fatal failure describing or duplicating it: " + w32::std_err.substr(0, 300));
				for (size_t b = 0; b < defs.size(); b++) if (c2[b].ast) {
					int r = -1; t = mc::fatal([&] { r = code_is_equal(c1[a], c2[b]); }); mc::transition();
					if (t) { mc::violation(k, "a fatal failure comparing it with " + defs[b].text + " " + w32::std_err.substr(0, 200)); continue; }
					bool raw = defs[a].ids == defs[b].ids && a != b, want = a == b;
					if (!raw && (r != 0) != want) mc::violation(k, (r ? "equal to " : "not equal to ") + (want ? S("itself") : defs[b].text));
					else { mc::trace_ok(); mc::state(mc::mix(mc::hash_str(defs[a].text), mc::hash_str(defs[b].text))); mc::outcome(r); }
				}
				w32::std_err.clear(); w32::std_out.clear();
			}
			for (auto x : keep) delete x; gram::down();
		}
	}
}
static void kinds_(bool th)
{
	auto& V = all();
	for (size_t a = 0; a < V.size(); a++) {
		if (!mc::begin(S("kind ") + V[a].name)) continue;
		gram::up(); std::vector<Code> c, d;
		bool t = mc::fatal([&] { for (auto& k : V) c.push_back(k.make()); for (auto& k : V) d.push_back(k.make()); describe(V[a].name, c[a]); duplicate(V[a].name, c[a]); });
		if (t) { mc::violation(V[a].name, "a fatal failure: " + w32::std_err.substr(0, 300)); gram::down(); continue; }
		for (size_t b = 0; b < V.size(); b++) {
			bool r = false, r2 = false, z = true; t = mc::fatal([&] { r = code_is_equal(c[a], d[b]); r2 = code_is_equal(d[b], c[a]); z = code_is_equal(c[a], Code{ nullptr }) || code_is_equal(Code{ nullptr }, c[a]); }); mc::transition();
			if (t) mc::violation(V[a].name, S("a fatal failure comparing it with ") + V[b].name + " " + w32::std_err.substr(0, 300));
			else if (r != (a == b)) mc::violation(V[a].name, S(r ? "equal to " : "not equal to ") + V[b].name);
			else if (r2 != r) mc::violation(V[a].name, S("the comparison depends on the order with ") + V[b].name);
			else if (z) mc::violation(V[a].name, "equal to null");
			else { mc::trace_ok(); mc::state(mc::mix(a * 100 + b, 77)); }
		}
		if (mc::fatal([&] { if (!code_is_equal(Code{ nullptr }, Code{ nullptr })) mc::violation("null", "null is not equal to null"); })) mc::violation("null", "a fatal failure comparing null with null");
		gram::down();
	}
	// types, parameters and specifiers of their own
	static const char* TY[] = { "int", "int*", "int&", "int&&", "int**", "const int", "const int*", "char", "A", "A<int>", "A<B>", "A::B", "unsigned int", "unsigned long", "int* const", "volatile int" };
	static const char* PA[] = { "int", "int a", "int b", "char a", "int* a", "int a, int b", "int a, int c", "int b, int a", "int a, int b, int c", "int a, int", "int a = 1", "int a, int b = 1", "A<int, B> a", "..." };
	auto pairs = [&](const char* what, const char** x, size_t n, std::function<Code(Str)> mk) {
		for (size_t a = 0; a < n; a++) { if (!mc::begin(S(what) + " " + x[a])) continue; gram::up();
			for (size_t b = 0; b < n; b++) { bool r = false, bad = false; bool t = mc::fatal([&] { Code p = mk(T(x[a])), q = mk(T(x[b])); bad = !p.ast || !q.ast || p == Code_Invalid || q == Code_Invalid; if (!bad) { r = code_is_equal(p, q); if (a == b) { describe(x[a], p); duplicate(x[a], p); } } }); mc::transition();
				if (t || bad) mc::violation(mc::cur_desc, S("a fatal failure comparing it with ") + x[b] + " " + w32::std_err.substr(0, 300));
				else if (r != (a == b)) mc::violation(mc::cur_desc, S(r ? "equal to " : "not equal to ") + x[b]);
				else { mc::trace_ok(); mc::state(mc::hash_str(S(what) + x[a] + x[b])); } }
			gram::down(); } };
	pairs("type", TY, sizeof TY / sizeof *TY, [](Str s) { return K(parse_type(s)); });
	static S held;
	pairs("parameters of", PA, sizeof PA / sizeof *PA, [](Str s) { S f = "void f(" + mc::S_(s) + ");"; Str q = cache_str(Str{ f.data(), (ssize)f.size() }); CodeFn fn = parse_function(q); Code r = { nullptr }; if (fn.ast && K(fn) != Code_Invalid) r = K(fn->Params); return r; });
	std::vector<Specifier> sp = { Spec_Const, Spec_Static, Spec_Inline, Spec_Ptr, Spec_Ref, Spec_Virtual, Spec_Volatile, Spec_Constexpr };
	std::vector<std::vector<Specifier>> seqs; for (auto x : sp) { seqs.push_back({ x }); for (auto y : sp) if (x != y) { seqs.push_back({ x, y }); if (th) for (auto z : sp) if (z != x && z != y) seqs.push_back({ x, y, z }); } }
	for (auto& p : seqs) { S nm = "specifiers"; for (auto x : p) nm += " " + mc::S_(spec_to_str(x)); if (!mc::begin(nm)) continue; gram::up();
		if (mc::fatal([&] { CodeSpecifiers a = def_specifiers_arr((s32)p.size(), p.data()); describe(nm, K(a)); duplicate(nm, K(a));
			for (auto& q : seqs) { CodeSpecifiers b = def_specifiers_arr((s32)q.size(), q.data()); bool r = code_is_equal(K(a), K(b)); mc::transition(); std::multiset<Specifier> ms(p.begin(), p.end()), mq(q.begin(), q.end());
				if (p == q ? !r : ms != mq ? r : false) mc::violation(nm, r ? "equal to other specifiers" : "not equal to the same specifiers"); else mc::trace_ok(); } })) mc::violation(nm, "a fatal failure"); else mc::state(mc::hash_str(nm));
		gram::down(); }
}
static void grammar(bool th)
{
	auto f = [](const char* fam, gram::Scope const& sc, std::string const& decl) {
		S src = S(sc.pre) + decl + sc.post, key = S(fam) + " in " + sc.name + ": " + decl; if (!mc::begin(key)) return;
		gram::up(); std::vector<mc::Exact*> keep; Code a = { nullptr }, b = a;
		bool t = mc::fatal([&] { a = parse(src, keep); b = parse(src, keep); });
		if (t || !a.ast || a == Code_Invalid || !b.ast || b == Code_Invalid) mc::count(0);
		else {
			bool r = false; t = mc::fatal([&] { r = code_is_equal(a, b) && code_is_equal(b, a) && code_is_equal(a, a); std::function<void(Code)> each = [&](Code c) { describe(key, c); duplicate(key, c); if (code_is_body(c)) { CodeBody y = as<CodeBody>(c); s32 n = y->NumEntries; for (Code e = y->Front; n-- > 0; e = e->Next) each(e); } }; each(a); }); mc::transition();
			if (t) mc::violation(key, "a fatal failure: " + w32::std_err.substr(0, 300)); else if (!r) mc::violation(key, "the same source parsed twice does not compare equal"); else { mc::trace_ok(); mc::state(mc::hash_str(src)); }
		}
		for (auto x : keep) delete x; gram::down(); w32::std_err.clear(); w32::std_out.clear();
	};
	gram::everything(th, f); gram::specifiers([](bool) {}, f);
}
void explore(bool th) { mc::counter_names[0] = "rejected"; compare(th); kinds_(th); grammar(th); }
