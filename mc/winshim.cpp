// Implementation of the stand-in Windows API: an in-memory file system, tracked heap, and fault injection.
// Every call that can fail on a real system is a numbered "fault point"; w32::fault_at selects the one that fails.
#include "shim/prelude.h"
#include "winshim.hpp"

namespace w32 {
std::map<std::string, std::string> files;       // path -> content
std::set<std::string>              readonly;    // paths that deny write access
std::string                        std_out, std_err;
long  fault_at = -1, fault_n = 0;
int   fault_mode = 0;
const char* fault_kind_only = nullptr;
std::vector<std::string> trace;
bool  tracing = false;
bool  (*on_missing)(std::string const& path) = nullptr;   // may put the file in place before it is opened
long  live_blocks = 0, alloc_n = 0, alloc_fail_at = -1;
static DWORD last_error = 0;

struct Handle { std::string path; int64_t pos; bool rd, wr; int std; bool open; };
static std::vector<Handle*> handles;
long open_handles() { long n=0; for (auto h: handles) if (h->open) n++; return n; }
static Handle g_std[3] = { {"<in>",0,true,false,1,true}, {"<out>",0,false,true,2,true}, {"<err>",0,false,true,3,true} };

void reset()
{
	for (auto h : handles) delete h;
	handles.clear(); files.clear(); readonly.clear(); std_out.clear(); std_err.clear();
	fault_at=-1; fault_n=0; fault_mode=0; trace.clear();
}
static bool point(const char* kind)
{
	if (tracing) trace.push_back(kind);
	if (fault_kind_only && strcmp(kind, fault_kind_only)) return false;
	return fault_n++ == fault_at;
}
static Handle* get(HANDLE h)
{
	if (h == INVALID_HANDLE_VALUE || !h) return nullptr;
	Handle* x = (Handle*)h;
	if (x==&g_std[0]||x==&g_std[1]||x==&g_std[2]) return x;
	for (auto y : handles) if (y==x) return y->open ? y : nullptr;
	return nullptr;
}
static std::string narrow(const wchar_t* w)
{
	std::string s;
	for (; *w; w++) {
		unsigned c = (unsigned)*w;
		if (c < 0x80) s += (char)c;
		else if (c < 0x800) { s += (char)(0xC0|(c>>6)); s += (char)(0x80|(c&63)); }
		else { s += (char)(0xE0|(c>>12)); s += (char)(0x80|((c>>6)&63)); s += (char)(0x80|(c&63)); }
	}
	return s;
}
}
using namespace w32;

extern "C" {
DWORD GetLastError(void) { return last_error; }
int MultiByteToWideChar(unsigned, DWORD, const char* s, int n, wchar_t* w, int wn)
{
	// n == -1: includes the terminator in the count, as the real call does
	size_t len = n < 0 ? strlen(s) + 1 : (size_t)n;
	int out = 0;
	for (size_t i = 0; i < len; ) {
		unsigned char c = (unsigned char)s[i];
		unsigned v; int k;
		if (c < 0x80) { v = c; k = 1; }
		else if ((c & 0xE0) == 0xC0) { v = c & 31; k = 2; }
		else if ((c & 0xF0) == 0xE0) { v = c & 15; k = 3; }
		else return 0;
		if (i + k > len) return 0;
		for (int j = 1; j < k; j++) { if ((((unsigned char)s[i+j]) & 0xC0) != 0x80) return 0; v = (v << 6) | (s[i+j] & 63); }
		i += k;
		if (w && wn) { if (out >= wn) return 0; w[out] = (wchar_t)v; }
		out++;
	}
	return out;
}
HANDLE CreateFileW(const wchar_t* name, DWORD access, DWORD, void*, DWORD disp, DWORD, HANDLE)
{
	if (!name) { last_error = ERROR_PATH_NOT_FOUND; return INVALID_HANDLE_VALUE; }
	std::string p = narrow(name);
	if (point("open")) { last_error = ERROR_ACCESS_DENIED; return INVALID_HANDLE_VALUE; }
	if (on_missing && !files.count(p)) on_missing(p);
	bool exists = files.count(p) != 0;
	bool wr = (access & (GENERIC_WRITE | FILE_APPEND_DATA)) != 0;
	if (wr && readonly.count(p)) { last_error = ERROR_ACCESS_DENIED; return INVALID_HANDLE_VALUE; }
	if (p.find("nodir/") == 0) { last_error = ERROR_PATH_NOT_FOUND; return INVALID_HANDLE_VALUE; }
	switch (disp) {
		case OPEN_EXISTING: if (!exists) { last_error = ERROR_FILE_NOT_FOUND; return INVALID_HANDLE_VALUE; } break;
		case CREATE_NEW:    if (exists)  { last_error = ERROR_FILE_EXISTS; return INVALID_HANDLE_VALUE; } files[p] = ""; break;
		case CREATE_ALWAYS: files[p] = ""; break;
		case OPEN_ALWAYS:   if (!exists) files[p] = ""; break;
		case TRUNCATE_EXISTING: if (!exists) { last_error = ERROR_FILE_NOT_FOUND; return INVALID_HANDLE_VALUE; } files[p] = ""; break;
	}
	Handle* h = new Handle{ p, 0, (access & GENERIC_READ) != 0, wr, 0, true };
	handles.push_back(h);
	return (HANDLE)h;
}
BOOL ReadFile(HANDLE hh, void* buf, DWORD n, DWORD* got, void*)
{
	Handle* h = get(hh); if (got) *got = 0;
	if (!h || !h->rd) { last_error = 6; return 0; }
	if (!h->std && point("read")) { if (fault_mode == 1 && n > 1) n = n / 2; else { last_error = 30; return 0; } }
	std::string& c = files[h->path];
	int64_t left = (int64_t)c.size() - h->pos; if (left < 0) left = 0;
	DWORD k = (int64_t)n < left ? n : (DWORD)left;
	if (k) memcpy(buf, c.data() + h->pos, k);
	h->pos += k; if (got) *got = k;
	return 1;
}
BOOL WriteFile(HANDLE hh, const void* buf, DWORD n, DWORD* put, void*)
{
	Handle* h = get(hh); if (put) *put = 0;
	if (!h || !h->wr) { last_error = 6; return 0; }
	BOOL ok = 1;
	if (!h->std && point("write")) {
		if (fault_mode == 1) n = n / 2;                       // short write reported as success
		else if (fault_mode == 2) { n = n / 2; ok = 0; last_error = 112; } // torn write, then failure
		else { last_error = 112; return 0; }                    // disk full, nothing written
	}
	if (h->std == 2) { std_out.append((const char*)buf, n); }
	else if (h->std == 3) { std_err.append((const char*)buf, n); }
	else {
		std::string& c = files[h->path];
		if (n && (int64_t)c.size() < h->pos) c.resize((size_t)h->pos, '\0');
		if (n && (int64_t)c.size() < h->pos + (int64_t)n) c.resize((size_t)(h->pos + n));
		if (n) memcpy(&c[(size_t)h->pos], buf, n);
	}
	h->pos += n; if (put) *put = n;
	return ok;
}
BOOL CloseHandle(HANDLE hh)
{
	Handle* h = get(hh); if (!h) return 0;
	if (tracing) trace.push_back("close");
	if (!h->std) h->open = false;
	return 1;
}
BOOL SetFilePointerEx(HANDLE hh, LARGE_INTEGER off, LARGE_INTEGER* np, DWORD whence)
{
	Handle* h = get(hh); if (!h || h->std) { last_error = 6; return 0; }
	if (point("seek")) { last_error = 131; return 0; }
	int64_t base = whence == FILE_BEGIN ? 0 : whence == FILE_CURRENT ? h->pos : (int64_t)files[h->path].size();
	int64_t v = base + off.QuadPart;
	if (v < 0) { last_error = 131; return 0; }
	h->pos = v; if (np) np->QuadPart = v;
	return 1;
}
BOOL GetFileSizeEx(HANDLE hh, LARGE_INTEGER* sz) { Handle* h = get(hh); if (!h || h->std) return 0; if (point("size")) return 0; sz->QuadPart = (int64_t)files[h->path].size(); return 1; }
BOOL FlushFileBuffers(HANDLE hh) { return get(hh) != nullptr; }
BOOL SetEndOfFile(HANDLE hh) { Handle* h = get(hh); if (!h || h->std) return 0; files[h->path].resize((size_t)h->pos); return 1; }
HANDLE GetStdHandle(DWORD n)
{
	if (n == STD_INPUT_HANDLE) return &g_std[0];
	if (n == STD_OUTPUT_HANDLE) return &g_std[1];
	if (n == STD_ERROR_HANDLE) return &g_std[2];
	return INVALID_HANDLE_VALUE;
}
__attribute__((weak)) void mc_on_exit(unsigned) {}
void ExitProcess(unsigned code) { mc_on_exit(code); _exit((int)code); }
void* VirtualAlloc(void* a, size_t n, DWORD t, DWORD)
{
	if (t == MEM_RESET) return a;
	if (a) return nullptr;
	void* p = nullptr; n = (n + 4095) & ~(size_t)4095;
	if (posix_memalign(&p, 65536, n ? n : 4096)) return nullptr;
	memset(p, 0, n);
	return p;
}
BOOL VirtualFree(void* a, size_t, DWORD) { free(a); return 1; }
size_t VirtualQuery(const void* a, MEMORY_BASIC_INFORMATION* i, size_t n) { memset(i, 0, n); i->BaseAddress = (void*)a; i->AllocationBase = (void*)a; i->State = MEM_COMMIT; i->RegionSize = 1; return n; }
void GetSystemInfo(SYSTEM_INFO* i) { memset(i, 0, sizeof *i); i->dwPageSize = 4096; i->dwAllocationGranularity = 65536; i->dwNumberOfProcessors = 8; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER* x) { x->QuadPart = 1000000; return 1; }
BOOL QueryPerformanceCounter(LARGE_INTEGER* x) { static int64_t t = 0; x->QuadPart = ++t; return 1; }
void* _aligned_malloc(size_t n, size_t a)
{
	if (alloc_n++ == alloc_fail_at) return nullptr;
	if (a < sizeof(void*)) a = sizeof(void*);
	void* p = nullptr;
	if (posix_memalign(&p, a, n ? n : 1)) return nullptr;
	live_blocks++;
	return p;
}
void _aligned_free(void* p) { if (p) { live_blocks--; free(p); } }
}
