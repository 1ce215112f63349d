// Core of the explicit-state / stateless exploration machinery.
//
// A check is a C++ translation unit that includes this header (which pulls in gencpp's own sources from the
// working tree), defines  PROPERTY, explore(), and enumerates its bounded space.  The core shards the space over
// worker processes, counts what was explored in shared memory, isolates crashes and hangs to the case that caused
// them, and reports violations with a replayable case number.
#pragma once
#include "shim/prelude.h"
#include "winshim.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unordered_map>

#ifndef MC_GEN_INCLUDE
#define MC_GEN_INCLUDE "gen.cpp"
#endif
#ifndef MC_NO_GEN
#include MC_GEN_INCLUDE
// a check of the macros gets them back with pop_macro
#pragma push_macro("code")
#pragma push_macro("code_str")
#pragma push_macro("code_fmt")
#pragma push_macro("stringize")
#undef malloc
#undef name
#undef code
#undef code_str
#undef code_fmt
#undef args
#undef mfree
#undef min
#undef max
#undef swap
#undef clamp
#undef abs
#undef cast
#undef count_of
#undef do_once
#undef stringize
#undef txt
#undef internal
#undef global
#endif

namespace mc {

typedef unsigned long long u64;

// ------------------------------------------------------------------ shared state
enum { MAXW = 64, SLOTS_LOG = 23 };
struct Worker { volatile u64 case_no; volatile u64 skip; volatile int done; char cur[4096]; };
struct Shared {
	u64 executions, transitions, states, states_dropped, outcomes, traces, fatal, rejected, violations, crashes;
	u64 counters[32];
	int stop;
	Worker w[MAXW];
	u64 outc[1 << 16];
};
static Shared* S;
static u64*    table;                       // shared open-addressing hash set of state fingerprints
static int     shard = 0, nshards = 1, tier_thorough = 0;
static u64     only_case = 0;
static FILE*   out_violations;
static double  deadline;
static std::vector<std::string> sample_list;
static const char* counter_names[32];

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xFF51AFD7ED558CCDull; h ^= h >> 32; return h; }
static inline u64 hash_bytes(const void* p, size_t n, u64 h = 1469598103934665603ull)
{ const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return mix(h, n); }
static inline u64 hash_str(std::string const& s, u64 h = 7) { return hash_bytes(s.data(), s.size(), h); }

static bool set_insert(u64* t, u64 mask, u64 h, u64* dropped)
{
	if (!h) h = 1;
	for (u64 i = h & mask, n = 0; n < 4096; i = (i + 1) & mask, n++) {
		u64 v = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
		if (v == h) return false;
		if (v == 0) { u64 z = 0; if (__atomic_compare_exchange_n(&t[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (z == h) return false; }
	}
	if (dropped) __atomic_fetch_add(dropped, 1, __ATOMIC_RELAXED);
	return false;
}
// record a visited state (fingerprint); returns true when it is new
static inline bool state(u64 h)  { if (set_insert(table, (1ull << SLOTS_LOG) - 1, h, &S->states_dropped)) { __atomic_fetch_add(&S->states, 1, __ATOMIC_RELAXED); return true; } return false; }
static inline bool outcome(u64 h){ if (set_insert(S->outc, (1ull << 16) - 1, h, nullptr)) { __atomic_fetch_add(&S->outcomes, 1, __ATOMIC_RELAXED); return true; } return false; }
static inline void transition(u64 n = 1) { __atomic_fetch_add(&S->transitions, n, __ATOMIC_RELAXED); }
static inline void count(int i, u64 n = 1) { __atomic_fetch_add(&S->counters[i], n, __ATOMIC_RELAXED); }
static inline void trace_ok(u64 n = 1) { __atomic_fetch_add(&S->traces, n, __ATOMIC_RELAXED); }

static std::string vfmt(const char* f, va_list va) { char b[8192]; vsnprintf(b, sizeof b, f, va); return b; }
static std::string sfmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static std::string sfmt(const char* f, ...) { va_list va; va_start(va, f); std::string s = vfmt(f, va); va_end(va); return s; }
static std::string esc(std::string const& s)
{ std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

// ------------------------------------------------------------------ cases
static std::string cur_desc;
// Begin the next case of this worker's shard.  Returns false when the case must not run (other shard, already done).
static u64  seq = 0;                 // global, deterministic case sequence number (before sharding)
static void (*on_case_begin)() = nullptr;
static bool begin(std::string const& desc)
{
	u64 n = ++seq;
	if (only_case) { if (n != only_case) return false; }
	else {
		if ((n - 1) % (u64)nshards != (u64)shard) return false;
		if (n <= S->w[shard].skip) return false;
		if (S->stop || ((n & 63) == 0 && now() > deadline)) { S->stop = 1; return false; }
	}
	Worker& w = S->w[shard];
	snprintf(w.cur, sizeof w.cur, "%s", desc.c_str());
	w.case_no = n;
	cur_desc = desc;
	__atomic_fetch_add(&S->executions, 1, __ATOMIC_RELAXED);
	w32::std_out.clear(); w32::std_err.clear();
	if (on_case_begin) on_case_begin();
	if (sample_list.size() < 8 && (n % 97 == 1 || sample_list.size() < 2)) sample_list.push_back(desc);
	return true;
}
static bool stopped() { return S->stop != 0; }
// true when the case just begun is the one being replayed
static bool replaying() { return only_case != 0; }

// Sub-sharding for expensive prefixes: true when the NEXT case belongs to this shard (so building its description is worthwhile)
static bool mine() { if (only_case) return seq + 1 == only_case; u64 n = seq + 1; return (n - 1) % (u64)nshards == (u64)shard && n > S->w[shard].skip && !S->stop; }
static void skip_case() { ++seq; }

static std::set<std::string> seen_keys;
static void violation_at(std::string const& key, std::string const& detail, u64 n, int sh)
{
	if (!seen_keys.insert(key).second) return;
	u64 v = __atomic_add_fetch(&S->violations, 1, __ATOMIC_RELAXED);
	if (v > (getenv("MC_ALLV") ? 4000000 : 400)) return;
	std::string line = sfmt("{\"key\":\"%s\",\"detail\":\"%s\",\"case\":%llu}\n", esc(key).substr(0, 2000).c_str(), esc(detail).substr(0, 4000).c_str(), n);
	if (out_violations) { fputs(line.c_str(), out_violations); fflush(out_violations); }
	if (replaying()) fprintf(stdout, "REPLAY violation key=%s\n  %s\n", key.c_str(), detail.c_str());
}
static void violation(std::string const& key, std::string const& detail) { violation_at(key, detail, S->w[shard].case_no, shard); }
#define MC_CHECK(cond, key, ...) do { if (!(cond)) mc::violation((key), mc::sfmt(__VA_ARGS__)); } while (0)

// ------------------------------------------------------------------ fatal capture (GEN_FATAL / GEN_ASSERT / process_exit)
static sigjmp_buf trap_jmp;
static volatile int trap_armed = 0;
static void on_ill(int sig) { if (trap_armed) { trap_armed = 0; siglongjmp(trap_jmp, 1); } signal(sig, SIG_DFL); raise(sig); }
// Runs f; returns true if it ended in gencpp's fatal-error path (debug trap or exit) instead of returning.
template <class F> static bool fatal(F f)
{
	if (sigsetjmp(trap_jmp, 1)) { __atomic_fetch_add(&S->fatal, 1, __ATOMIC_RELAXED); return true; }
	trap_armed = 1; f(); trap_armed = 0; return false;
}
}
extern "C" inline void mc_on_exit(unsigned) { if (mc::trap_armed) { mc::trap_armed = 0; siglongjmp(mc::trap_jmp, 1); } }

namespace mc {
// ------------------------------------------------------------------ odometer for nested bounded choices
// for (Choose c; c.more(); c.next()) { int a = c(3); int b = c(2); ... }  enumerates every choice sequence (DFS, stateless)
struct Choose {
	std::vector<std::pair<int,int>> path; size_t pos = 0; bool fin = false;
	bool more() { pos = 0; return !fin; }
	int operator()(int n) { if (pos == path.size()) path.push_back({0, n}); auto& p = path[pos++]; p.second = n; return p.first; }
	void next() { path.resize(pos); while (!path.empty()) { if (++path.back().first < path.back().second) return; path.pop_back(); } fin = true; }
};

#ifndef MC_NO_GEN
// ------------------------------------------------------------------ allocator with exact-size blocks, released per case
struct TBlk { TBlk* prev; TBlk* next; size_t size; size_t magic; };
static TBlk t_head = { &t_head, &t_head, 0, 0 };
static long t_live = 0, t_total = 0, t_fail_at = -1;
static void* t_alloc(size_t n)
{
	if (t_total++ == t_fail_at) return nullptr;
	TBlk* b = (TBlk*)malloc(sizeof(TBlk) + (n ? n : 1)); b->size = n; b->magic = 0xA110C8ED;
	memset(b + 1, 0xCD, n);       // not zeroed: nothing may rely on fresh memory being zero
	b->prev = &t_head; b->next = t_head.next; t_head.next->prev = b; t_head.next = b; t_live++;
	return b + 1;
}
static void t_free(void* p)
{
	if (!p) return; TBlk* b = (TBlk*)p - 1;
	b->prev->next = b->next; b->next->prev = b->prev; t_live--; b->magic = 0; free(b);
}
static void t_free_all() { while (t_head.next != &t_head) t_free(t_head.next + 1); }
static void* temp_proc(void*, gen::AllocType type, gen::ssize size, gen::ssize, void* old, gen::ssize old_size, gen::u64)
{
	switch (type) {
		case gen::EAllocation_ALLOC: return t_alloc((size_t)size);
		case gen::EAllocation_FREE: t_free(old); return nullptr;
		case gen::EAllocation_FREE_ALL: return nullptr;
		case gen::EAllocation_RESIZE: {
			void* p = t_alloc((size_t)size); if (!p) return nullptr;
			if (old) { memcpy(p, old, (size_t)(old_size < size ? old_size : size)); t_free(old); }
			return p; }
	}
	return nullptr;
}
static gen::AllocatorInfo temp() { gen::AllocatorInfo a = { &temp_proc, nullptr }; return a; }

static std::string S_(gen::Str s) { return s.Ptr && s.Len > 0 ? std::string(s.Ptr, (size_t)s.Len) : std::string(); }
static std::string SB_(gen::StrBuilder s) { return S_(gen::strbuilder_to_str(s)); }
// A Str over an exact-size heap copy without terminator: any read past the end is an ASan error.
struct Exact { char* p; gen::Str s; Exact(std::string const& v) { p = (char*)malloc(v.size() ? v.size() : 1); memcpy(p, v.data(), v.size()); s.Ptr = p; s.Len = (gen::ssize)v.size(); } ~Exact() { free(p); } Exact(Exact const&) = delete; };
// NUL-terminated exact-size copy
struct ExactZ { char* p; gen::Str s; ExactZ(std::string const& v) { p = (char*)malloc(v.size() + 1); memcpy(p, v.data(), v.size()); p[v.size()] = 0; s.Ptr = p; s.Len = (gen::ssize)v.size(); } void wipe() { memset(p, 64, (size_t)s.Len); } ~ExactZ() { free(p); } ExactZ(ExactZ const&) = delete; };

static gen::Context ctx;
static void ctx_up(int blocks = 4096)
{
	memset(&ctx, 0, sizeof ctx);
	ctx.CodePool_NumBlocks = (unsigned)blocks; ctx.SizePer_StringArena = 1 << 20; ctx.Max_StrCacheLength = 1 << 18;
	ctx.Allocator_Temp = temp();
	gen::init(&ctx);
}
static void ctx_down() { gen::deinit(&ctx); }
#endif

extern const char* PROPERTY;
} // namespace mc
extern void explore(bool thorough);
namespace mc {

static void run_worker(int sh)
{
	shard = sh;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_ill; sa.sa_flags = SA_NODEFER; sigaction(SIGILL, &sa, nullptr); sigaction(SIGTRAP, &sa, nullptr);
	explore(tier_thorough != 0);
	S->w[sh].done = 1;
}

static std::string read_file(std::string const& p, size_t max = 1 << 20) { std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < max) s.append(b, n); fclose(f); return s; }
static double cpu_of(pid_t p)
{ std::string s = read_file("/proc/" + std::to_string(p) + "/stat"); size_t q = s.rfind(')'); if (q == std::string::npos) return 0; unsigned long u = 0, k = 0; sscanf(s.c_str() + q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &k); return (double)(u + k) / sysconf(_SC_CLK_TCK); }
static std::string crash_summary(std::string const& log)
{
	std::string o; size_t p = log.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = log.find("runtime error"); if (p == std::string::npos) return "";
	o = log.substr(p, 120); o = o.substr(0, o.find('\n'));
	size_t q = p; int n = 0; while (n < 6 && (q = log.find(" in gen::", q)) != std::string::npos) { size_t e = log.find_first_of("\n(", q + 9); o += "  <- " + log.substr(q + 4, e - q - 4); q += 9; n++; }
	return o;
}
}

int main(int argc, char** argv)
{
	using namespace mc;
	std::string dir = "."; int n = 8; double budget = 700;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--dir")) dir = argv[++i];
		else if (!strcmp(argv[i], "--jobs")) n = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--thorough")) tier_thorough = 1;
		else if (!strcmp(argv[i], "--case")) only_case = strtoull(argv[++i], nullptr, 10);
		else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
	}
	S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	table = (u64*)mmap(nullptr, sizeof(u64) << SLOTS_LOG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	deadline = now() + budget; double t0 = now();
	nshards = only_case ? 1 : n; if (nshards > MAXW) nshards = MAXW;
	int vfd = open((dir + "/violations.jsonl").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
	out_violations = fdopen(vfd, "a");
	std::string samples_path = dir + "/samples.";
	std::vector<pid_t> pid(nshards, 0); std::vector<u64> last(nshards, 0); std::vector<double> last_t(nshards, now()), last_cpu(nshards, 0);
	auto spawn = [&](int sh) {
		fflush(nullptr);
		pid_t p = fork();
		if (p == 0) {
			if (!only_case || !getenv("MC_VERBOSE")) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); }
			run_worker(sh);
			FILE* f = fopen((samples_path + std::to_string(sh)).c_str(), "w"); for (auto& s : sample_list) fprintf(f, "%s\n", esc(s).c_str()); fclose(f);
			if (sh == 0) { f = fopen((dir + "/counters").c_str(), "w"); for (int i = 0; i < 32; i++) fprintf(f, "%s\n", counter_names[i] ? counter_names[i] : ""); fclose(f); }
			fflush(out_violations);
			_exit(0);
		}
		pid[sh] = p; last_t[sh] = now(); last_cpu[sh] = 0;
	};
	for (int i = 0; i < nshards; i++) spawn(i);
	int live = nshards, hangs = 0;
	while (live > 0) {
		usleep(20000);
		for (int i = 0; i < nshards; i++) {
			if (!pid[i]) continue;
			int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
			bool hang = false;
			if (r == 0) {
				u64 c = S->w[i].case_no; if (c != last[i]) { last[i] = c; last_t[i] = now(); last_cpu[i] = cpu_of(pid[i]); }
				if (only_case && now() - last_t[i] < 200 && cpu_of(pid[i]) - last_cpu[i] < 60) continue;
				if (now() - last_t[i] < 40) continue;
				if (!only_case && now() - last_t[i] < 300 && cpu_of(pid[i]) - last_cpu[i] < 30) continue;   // slow machine, not a hang
				kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); hang = true;
			}
			pid_t was = pid[i]; pid[i] = 0;
			if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->w[i].done) { live--; continue; }
			// crashed or hung: attribute to the current case and go on behind it
			std::string log = read_file(dir + "/asan." + std::to_string(was));
			std::string why = hang ? std::string("no progress (hang)") : WIFSIGNALED(st) ? sfmt("killed by signal %d", WTERMSIG(st)) : sfmt("exit status %d", WEXITSTATUS(st));
			std::string sum = crash_summary(log); if (!sum.empty()) why += ": " + sum;
			u64 cn = S->w[i].case_no;
			__atomic_fetch_add(&S->crashes, 1, __ATOMIC_RELAXED);
			shard = i;
			violation_at((hang ? "hang: " : "crash: ") + std::string(S->w[i].cur), why, cn, i);
			if (only_case) { live--; continue; }
			if (hang && ++hangs >= 4) S->stop = 1;
			if (S->crashes > 120 || S->stop || cn == 0) { S->w[i].done = 1; live--; if (cn == 0) { violation_at("crash: before the first case", why, 0, i); } continue; }
			S->w[i].skip = cn; spawn(i);
		}
	}
	fflush(out_violations);
	FILE* f = fopen((dir + "/stats.json").c_str(), "w");
	fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"states_dropped\":%llu,\"outcomes\":%llu,\"traces\":%llu,\"fatal\":%llu,\"violations\":%llu,\"crashes\":%llu,\"stopped\":%d,\"wall\":%.3f,\"counters\":[",
		S->executions, S->transitions, S->states, S->states_dropped, S->outcomes, S->traces, S->fatal, S->violations, S->crashes, S->stop, now() - t0);
	for (int i = 0; i < 32; i++) fprintf(f, "%s%llu", i ? "," : "", S->counters[i]);
	fprintf(f, "]}\n"); fclose(f);
	printf("executions=%llu transitions=%llu states=%llu outcomes=%llu violations=%llu crashes=%llu stopped=%d wall=%.1fs\n", S->executions, S->transitions, S->states, S->outcomes, S->violations, S->crashes, S->stop, now() - t0);
	return S->violations ? 1 : 0;
}
