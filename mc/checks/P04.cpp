// P04: parsing ends for every input: with code, or with a diagnostic. It never reads outside of the text, never hangs,
// and what it accepts it can serialize, without losing a token.
#include "gram.hpp"
using namespace gen;
const char* mc::PROPERTY = "P04";
static std::unordered_map<unsigned long long, char> done;
static bool same_tokens = false;
static void one(std::string const& src)
{
	if (!done.emplace(mc::hash_str(src), 1).second) return;
	mc::Worker& w = mc::S->w[mc::shard]; snprintf(w.cur, sizeof w.cur, "%s", src.c_str()); mc::cur_desc = src;
	gram::up();
	std::string out; bool rej = false;
	mc::Exact z(src);
	bool f = mc::fatal([&] { CodeBody b = parse_global_body(z.s); if (b.ast == nullptr || Code{(AST*)b.ast} == Code_Invalid) rej = true; else out = mc::SB_(code_to_strbuilder(Code{(AST*)b.ast})); });
	mc::transition();
	if (f || rej) mc::count(0);
	else {
		std::string d = ref::diff(ref::toks(src), ref::toks(out));
		if (same_tokens && !d.empty()) mc::violation("accepted: " + mc::cur_desc, d + "\n" + out);
		mc::trace_ok(); mc::state(mc::hash_str(out)); mc::outcome(mc::hash_str(out));
	}
#ifdef GEN_DONT_USE_FATAL
	// the context is still usable
	if (!f) {
		std::string o2; bool r2 = false;
		bool f2 = mc::fatal([&] { Str s = { "int after( int a );", 19 }; CodeBody b = parse_global_body(s); if (b.ast == nullptr || Code{(AST*)b.ast} == Code_Invalid) r2 = true; else o2 = mc::SB_(code_to_strbuilder(Code{(AST*)b.ast})); });
		if (f2 || r2 || ref::toks(o2) != ref::toks("int after( int a );")) mc::violation("after: " + mc::cur_desc, "the next parse: " + o2);
	}
#endif
	gram::down();
}
static std::vector<std::string> split(std::string const& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = i; if (isalnum((unsigned char)s[i]) || s[i] == '_') while (e < s.size() && (isalnum((unsigned char)s[e]) || s[e] == '_')) e++; else if (s[i] == ' ') while (e < s.size() && s[e] == ' ') e++; else e++; v.push_back(s.substr(i, e - i)); i = e; } return v; }
static std::string join(std::vector<std::string> const& v) { std::string s; for (auto& t : v) s += t; return s; }
static bool deep;
static void mutate(const char* family, gram::Scope const& sc, std::string const& decl)
{
	std::string src = sc.pre + decl + sc.post;
	if ((strncmp(family, "CRLF ", 5) == 0 || strstr(family, "bodies of")) && mc::hash_str(decl) % (deep ? 8 : 24)) { mc::skip_case(); return; }   // (part of the large families of combined bodies)
	if (!mc::begin(std::string(family) + " in " + sc.name + ": " + decl)) return;
	if (deep) for (size_t n = strlen(sc.pre) + 1; n < src.size(); n++) one(src.substr(0, n));
	std::vector<std::string> v = split(decl);
	for (size_t i = 0; i < v.size(); i++) {
		std::vector<std::string> p(v.begin(), v.begin() + i + 1); one(sc.pre + join(p));        // truncated
		if (deep || strlen(sc.pre) == 0) one(sc.pre + join(p) + sc.post);
		std::vector<std::string> q = v; q.erase(q.begin() + i); one(sc.pre + join(q) + sc.post); // a token missing
		q = v; q.insert(q.begin() + i, v[i]); one(sc.pre + join(q) + sc.post);                   // a token twice
		if (i + 1 < v.size()) { q = v; std::swap(q[i], q[i + 1]); one(sc.pre + join(q) + sc.post); }
	}
}
static const char* ALPHA[] = { "int ", "a", "::", "<", ">", "(", ")", "{", "}", "[", "]", ";", ",", "=", "*", "~", "operator", " const ", "class ", "enum ", "template", ":", "1", "#define ", "\n", "\"", "'", "//", "/*", "static ", "using ", "typedef ", "namespace ", "friend ", "extern ", "M_STMTF", "union ", "[[", "...", "\\", "#if ", "#include ", "&", "!", "-", "virtual ", "decltype", "export ", "__attribute__", "typename ", "struct " };
static void seqs(const char* pre, const char* post, int len)
{
	enum { N = sizeof ALPHA / sizeof *ALPHA };
	std::vector<int> ix(len, 0);
	for (;;) {
		// the last two symbols vary inside of a case
		if (mc::mine()) {
			std::string s; for (int i = 0; i < len - 2; i++) s += ALPHA[ix[i]];
			if (mc::begin(std::string("sequences: ") + pre + s)) for (int a = 0; a < N; a++) { one(pre + s + ALPHA[a] + post); for (int b = 0; b < N; b++) one(pre + s + ALPHA[a] + ALPHA[b] + post); }
		} else mc::skip_case();
		int k = len - 3; for (; k >= 0; k--) { if (++ix[k] < N) break; ix[k] = 0; }
		if (k < 0 || mc::stopped()) break;
	}
}
void explore(bool thorough)
{
	mc::counter_names[0] = "rejected"; deep = thorough;
	for (int l = 2; l <= (thorough ? 4 : 3); l++) { seqs("", "", l); seqs("class A { ", "};", l); seqs("int a", ";", l); seqs("template<class T> ", ";", l); seqs("enum E { A, ", "};", l); seqs("int f(", ")", l); seqs("int f() { ", " }", l); }
	gram::everything(false, mutate);
}
