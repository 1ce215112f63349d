// Runs one of gencpp's generators (-DGENERATOR, a .cpp with a main) in its folder: the files it opens are read from the disk, the files it
// writes are written back when it is done. refactor.exe, which only exists for Windows, is stood in for; clang-format is called as it is.
#include "winshim.hpp"
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <sys/stat.h>
#include GENERATOR
typedef std::string St;
static std::map<St, St> loaded;
static bool slurp(St const& p, St& out) { std::ifstream f(p, std::ios::binary); if (!f) return false; std::stringstream s; s << f.rdbuf(); out = s.str(); return true; }
static void spit(St const& p, St const& c) { for (size_t i = 1; i < p.size(); i++) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0777); std::ofstream(p, std::ios::binary) << c; }
static void finish() { for (auto& f : w32::files) { auto it = loaded.find(f.first); if (it == loaded.end() || it->second != f.second) spit(f.first, f.second); } }
static bool on_missing(St const& p) { static bool once = atexit(finish) == 0; (void)once; St c; if (!slurp(p, c)) return false; w32::files[p] = loaded[p] = c; return true; }
static bool wc(char c) { return isalnum((unsigned char)c) || c == '_'; }
static int refactor_(St const& src, St const& spec)
{
	St text; std::map<St, St> words; std::vector<std::pair<St, St>> spaces;
	if (!slurp(spec, text)) return 1;
	std::stringstream ls(text);
	for (St l; std::getline(ls, l);) {
		for (auto& c : l) if (c == ',' || c == '\r') c = ' ';
		std::stringstream s(l); St kind, a, b; s >> kind >> a >> b;
		if (kind == "word") words.emplace(a, b); else if (kind == "namespace") spaces.push_back({ a, b });
	}
	if (!w32::files.count(src) && !on_missing(src)) return 1;
	St &in = w32::files[src], out;
	for (size_t i = 0; i < in.size();) {
		if (!wc(in[i])) { out += in[i++]; continue; }
		size_t e = i; while (e < in.size() && wc(in[e])) e++;
		St w = in.substr(i, e - i); auto it = words.find(w);
		if (it != words.end()) w = it->second;
		else for (auto& n : spaces) if (w.compare(0, n.first.size(), n.first) == 0) { w = n.second + w.substr(n.first.size()); break; }
		out += w; i = e;
	}
	in = out; return 0;
}
extern "C" int remove(const char* p) { if (w32::files.erase(p)) return 0; return -1; }
extern "C" int system(const char* cmd)
{
	std::stringstream s(cmd); std::vector<St> a; for (St w; s >> w;) a.push_back(w);
	if (a.empty()) return 1;
	if (a[0] == "refactor") { St src, spec; for (auto& w : a) { if (w.compare(0, 5, "-src=") == 0) src = w.substr(5); if (w.compare(0, 6, "-spec=") == 0) spec = w.substr(6); } return refactor_(src, spec); }
	if (a[0] == "clang-format") {
		if (getenv("MC_NO_FORMAT")) return 0;
		St path = a.back(), tmp = St(getenv("MC_TMP") ? getenv("MC_TMP") : ".") + "/fmt." + std::to_string(getpid()) + path.substr(path.rfind('.'));
		if (!w32::files.count(path) && !on_missing(path)) return 1;
		spit(tmp, w32::files[path]); a.back() = tmp;
		std::vector<char*> av; for (auto& w : a) if (w != "-verbose") av.push_back(&w[0]); av.push_back(nullptr);
		pid_t pid = fork(); if (pid == 0) { execvp(av[0], av.data()); _exit(127); }
		int st = 0; waitpid(pid, &st, 0); slurp(tmp, w32::files[path]); unlink(tmp.c_str()); return st;
	}
	return 1;
}
__attribute__((constructor)) static void start() { w32::on_missing = on_missing; }
