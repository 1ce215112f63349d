// development aid: parse snippets (separated by lines "====") and show what comes back
#include "mc.hpp"
using namespace gen;
const char* mc::PROPERTY = "dev";
static std::string in;
void explore(bool)
{
	std::string kind = getenv("KIND") ? getenv("KIND") : "global"; size_t p = 0;
	while (p < in.size()) { size_t e = in.find("====\n", p); if (e == std::string::npos) e = in.size(); std::string s = in.substr(p, e - p); p = e + 5;
		if (!getenv("NL") && s.size() && s.back() == '\n') s.pop_back();
		fflush(stdout);
		pid_t k = fork(); if (k == 0) { alarm(5); std::string o; 
			bool f = mc::fatal([&] { mc::ctx_up(); mc::Exact z(s); Code r = { nullptr };
				if (kind == "global") r = Code{ (AST*) parse_global_body(z.s).ast };
				else if (kind == "class") r = Code{ (AST*) parse_class(z.s).ast }; else if (kind == "fn") r = Code{ (AST*) parse_function(z.s).ast };
				o = r.ast == Code_Invalid.ast ? "(Invalid)" : r.ast ? mc::SB_(code_to_strbuilder(r)) : "(null)"; });
			printf("IN  [%s]\nOUT [%s]\n", s.c_str(), f ? ("TRAP " + w32::std_err).substr(0, 700).c_str() : o.c_str()); fflush(stdout); _exit(0); }
		int st; waitpid(k, &st, 0); if (st) printf("IN  [%s]\nOUT CRASH %x\n", s.c_str(), st); printf("\n"); }
}
struct R { R() { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, stdin)) > 0) in.append(b, n); } } r;
