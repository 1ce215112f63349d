// The libraries of genlibs.py, side by side in one program.
#pragma once
#include "gram.hpp"
struct MC_STEP { int op, a, b; };
#define MC_LIB(n) extern "C" { void lib_##n##_up(int exact); void lib_##n##_down(void); void lib_##n##_parse(int which, const char* src, size_t len); void lib_##n##_build(int family, long k); long lib_##n##_builds(int family); void lib_##n##_seq(int family, int reserve, int direct, int fail_at, const MC_STEP* ops, int n); }
MC_LIB(base) MC_LIB(single) MC_LIB(seg) MC_LIB(ue) MC_LIB(c)
namespace libs {
struct Lib { const char* name; void (*up)(int); void (*down)(void); void (*parse)(int, const char*, size_t); void (*build)(int, long); long (*builds)(int); void (*seq)(int, int, int, int, const MC_STEP*, int); };
#define MC_LIB_ROW(t, n) { t, lib_##n##_up, lib_##n##_down, lib_##n##_parse, lib_##n##_build, lib_##n##_builds, lib_##n##_seq }
static const Lib BASE = MC_LIB_ROW("base", base);
static const Lib OTHERS[] = { MC_LIB_ROW("C library", c), MC_LIB_ROW("single header", single), MC_LIB_ROW("segmented library", seg), MC_LIB_ROW("Unreal library", ue) };
static std::string emitted;
static std::vector<void*> blocks;
// what f says when the library runs it; "(fatal)" when it ends in the library's fatal path
template <class F> static std::string said(Lib const& l, F f, int exact = 0)
{
	emitted.clear(); w32::files.clear();
	l.up(exact);
	if (mc::fatal([&] { f(); })) emitted = "(fatal)";
	l.down();
	for (auto b : blocks) free(b);
	blocks.clear();
	mc::transition();
	return emitted;
}
static std::string with(std::string s, const char* a, const char* b) { for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += strlen(b)) s.replace(p, strlen(a), b); return s; }
// the same for whole words
static std::string word(std::string s, const char* a, const char* b)
{
	auto id = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
	size_t n = strlen(a);
	for (size_t p = 0; (p = s.find(a, p)) != std::string::npos;) {
		if ((p && id(s[p - 1])) || (p + n < s.size() && id(s[p + n]))) { p += n; continue; }
		s.replace(p, n, b); p += strlen(b);
	}
	return s;
}
// where two texts part, with what stands there
static std::string apart(std::string const& a, std::string const& b)
{
	size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	size_t f = i > 60 ? i - 60 : 0;
	return "the library: ..." + a.substr(f, 160) + "\ninstead: ..." + b.substr(f, 160);
}
}
extern "C" void mc_emit(const char* p, size_t n) { libs::emitted.append(p, n); }
extern "C" void mc_emit_file(const char* path) { auto f = w32::files.find(path); libs::emitted += f == w32::files.end() ? "(no file)" : f->second; }
extern "C" void mc_emitf(const char* f, ...) { char b[1024]; va_list va; va_start(va, f); int n = vsnprintf(b, sizeof b, f, va); va_end(va); libs::emitted.append(b, (size_t)(n < 1024 ? n : 1023)); }
extern "C" void* mc_block(size_t n) { void* p = malloc(n ? n : 1); libs::blocks.push_back(p); return p; }
extern "C" void mc_unblock(void* p) { for (size_t i = libs::blocks.size(); i--;) if (libs::blocks[i] == p) { libs::blocks.erase(libs::blocks.begin() + (long)i); free(p); return; } libs::emitted += "(frees what isn't allocated)"; }
extern "C" int mc_blocks(void) { return (int)libs::blocks.size(); }
