// Reference tokenizer: the significant tokens of a C++ text (comments included, layout not).
#pragma once
#include <string>
#include <vector>
#include <string.h>
#include <ctype.h>
namespace ref {
typedef std::vector<std::string> Toks;
static Toks toks_raw(std::string const& s, bool comments = true)
{
	static const char* P[] = { "->*", "<<=", "...", "<=>", "->", "++", "--", "<<", "<=", ">=", "==", "!=", "&&", "||", "::", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "##", ".*", 0 };
	Toks o; size_t i = 0, n = s.size(); bool bol = true, pp = false;
	while (i < n) {
		char c = s[i];
		if (c == '\n') { if (pp) { o.push_back("<eol>"); pp = false; } bol = true; i++; continue; }
		if (c == '\\' && i + 1 < n && (s[i + 1] == '\n' || (s[i + 1] == '\r' && i + 2 < n && s[i + 2] == '\n'))) { i += s[i + 1] == '\r' ? 3 : 2; continue; }
		if (isspace((unsigned char)c)) { i++; continue; }
		if (c == '/' && i + 1 < n && pp && comments) { // a comment ending a directive's line may as well stand on the next one
			size_t e = std::string::npos; if (s[i + 1] == '/') e = s.find('\n', i); else if (s[i + 1] == '*') { e = s.find("*/", i + 2); if (e != std::string::npos) { e += 2; while (e < n && (s[e] == ' ' || s[e] == '\t')) e++; } }
			if ((s[i + 1] == '/' || s[i + 1] == '*') && (e >= n || s[e] == '\n' || s[e] == '\r')) { o.push_back("<eol>"); pp = false; } }
		if (c == '/' && i + 1 < n && s[i + 1] == '/') { size_t e = i; while (e < n && s[e] != '\n') e++; std::string t = s.substr(i, e - i); while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); if (comments) o.push_back(t); i = e; continue; }
		if (c == '/' && i + 1 < n && s[i + 1] == '*') { size_t e = s.find("*/", i + 2); e = e == std::string::npos ? n : e + 2; if (comments) o.push_back(s.substr(i, e - i)); i = e; continue; }
		if (c == '#' && bol) { pp = true; }
		bol = false;
		if (isalpha((unsigned char)c) || c == '_') { size_t e = i; while (e < n && (isalnum((unsigned char)s[e]) || s[e] == '_')) e++; o.push_back(s.substr(i, e - i)); i = e; continue; }
		if (isdigit((unsigned char)c) || (c == '.' && i + 1 < n && isdigit((unsigned char)s[i + 1]))) { size_t e = i; while (e < n && (isalnum((unsigned char)s[e]) || s[e] == '_' || s[e] == '.' || (s[e] == '\'' && e + 1 < n && isalnum((unsigned char)s[e + 1])) || ((s[e] == '+' || s[e] == '-') && (s[e-1] == 'e' || s[e-1] == 'E') && !(s[i] == '0' && i + 1 < n && (s[i+1] == 'x' || s[i+1] == 'X'))))) e++; o.push_back(s.substr(i, e - i)); i = e; continue; }
		if (c == '"' || c == '\'') { size_t e = i + 1; while (e < n && s[e] != c && s[e] != '\n') e += s[e] == '\\' ? 2 : 1; if (e < n) e++; if (e > n) e = n; o.push_back(s.substr(i, e - i)); i = e; continue; }
		bool m = false; for (int k = 0; P[k]; k++) { size_t l = strlen(P[k]); if (s.compare(i, l, P[k]) == 0) { o.push_back(P[k]); i += l; m = true; break; } }
		if (!m) { o.push_back(std::string(1, c)); i++; }
	}
	if (pp) o.push_back("<eol>");
	return o;
}
static bool is_word(std::string const& t) { return !t.empty() && (isalpha((unsigned char)t[0]) || t[0] == '_'); }
// `const T` and `T const` are the same type: the qualifier is put after the type's name
static Toks east(Toks t)
{
	static const char* KW[] = { "static", "inline", "extern", "constexpr", "typedef", "operator", "friend", "virtual", "mutable", "global", "internal", "forceinline", "neverinline", "explicit", "const", "volatile", "typename", "thread_local", "local_persist", "constinit", "consteval", "return", "local_persist", "GEN_API", "M_ATTR", "register", "public", "private", "protected" };
	static const char* BUILTIN[] = { "unsigned", "signed", "long", "short", "int", "char", "double" };
	auto in = [](std::string const& x, const char** b, size_t n) { for (size_t k = 0; k < n; k++) if (x == b[k]) return true; return false; };
	for (size_t i = t.size(); i-- > 0;) {
		if (t[i] != "const" && t[i] != "volatile") continue;
		size_t b = i; while (b && (t[b - 1] == "const" || t[b - 1] == "volatile")) b--;
		bool header = false;   // the > ends a template's parameters
		if (b && t[b - 1][0] == '>') { int d = 0; for (size_t k = b; k-- > 0;) { if (t[k] == ">") d++; else if (t[k] == ">>") d += 2; else if (t[k] == "<" && --d <= 0) { header = k && t[k - 1] == "template"; break; } } }
		if (b && !header && (t[b - 1] == "*" || t[b - 1] == "&" || t[b - 1] == "&&" || t[b - 1] == ")" || t[b - 1] == ">" || t[b - 1] == ">>" || (is_word(t[b - 1]) && !in(t[b - 1], KW, sizeof KW / sizeof *KW)))) continue;
		size_t j = i + 1;
		if (j < t.size() && in(t[j], BUILTIN, sizeof BUILTIN / sizeof *BUILTIN)) while (j < t.size() && in(t[j], BUILTIN, sizeof BUILTIN / sizeof *BUILTIN)) j++;
		else for (;;) {
			if (j >= t.size() || !is_word(t[j])) break;
			j++;
			if (j < t.size() && t[j] == "<") { int d = 0; do { if (t[j] == "<") d++; else if (t[j] == ">") d--; else if (t[j] == ">>") d -= 2; j++; } while (j < t.size() && d > 0); }
			if (j < t.size() && t[j] == "::") j++; else break;
		}
		if (j == i + 1) continue;
		std::string q = t[i]; t.erase(t.begin() + i); t.insert(t.begin() + (j - 1), q);
	}
	return t;
}
static Toks toks(std::string const& s, bool comments = true) { return east(toks_raw(s, comments)); }
static std::string join(Toks const& t) { std::string s; for (auto& x : t) { if (!s.empty()) s += ' '; s += x; } return s; }
// a line directive ends at the end of the text as well as at a line end
static std::string diff(Toks const& a, Toks const& b)
{ size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; if (i == a.size() && i == b.size()) return "";
  auto at = [&](Toks const& t) { std::string s; for (size_t k = i; k < t.size() && k < i + 6; k++) s += t[k] + " "; return s.empty() ? std::string("(end)") : s; };
  return "token " + std::to_string(i) + ": expected " + at(a) + "| got " + at(b); }
}
