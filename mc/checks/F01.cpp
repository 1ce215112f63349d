// F01: files and memory streams: every history of reads, writes and seeks up to the depth bound on the real file layer, over the
// in-memory file system and over memory streams, against a byte string with a cursor.
#include "mc.hpp"
using namespace gen;
const char* mc::PROPERTY = "F01";
typedef std::string S;
enum { FILE_, GROWING, FIXED, CONST_ };
struct Subject { const char* name; int kind; unsigned mode; bool exists; const char* init; bool rd, wr; };
static const Subject SUBJ[] = {
	{ "stream, new", GROWING, 0, true, "", true, true }, { "stream, clone of 4", GROWING, 0, true, "abcd", true, true }, { "stream over 4 writable", FIXED, 0, true, "abcd", true, true }, { "stream over 4", CONST_, 0, true, "abcd", true, false }, { "stream, clone of 1", GROWING, 0, true, "a", true, true },
	{ "file WRITE, missing", FILE_, EFileMode_WRITE, false, "", false, true }, { "file WRITE of 4", FILE_, EFileMode_WRITE, true, "abcd", false, true }, { "file WRITE|RW of 4", FILE_, EFileMode_WRITE | EFileMode_RW, true, "abcd", true, true },
	{ "file READ of 4", FILE_, EFileMode_READ, true, "abcd", true, false }, { "file READ, empty", FILE_, EFileMode_READ, true, "", true, false }, { "file READ|RW of 4", FILE_, EFileMode_READ | EFileMode_RW, true, "abcd", true, true },
	{ "file APPEND of 4", FILE_, EFileMode_APPEND, true, "abcd", false, true }, { "file APPEND, missing", FILE_, EFileMode_APPEND, false, "", false, true }, { "file APPEND|RW of 4", FILE_, EFileMode_APPEND | EFileMode_RW, true, "abcd", true, true },
	{ "file READ, missing", FILE_, EFileMode_READ, false, "", true, false }, { "file READ|RW, missing", FILE_, EFileMode_READ | EFileMode_RW, false, "", true, true },
};
static const char* OPS[] = { "write 2", "write 6", "write_at 0", "write_at 3", "write_at size+2", "write_at -1", "write 40", "write 0", "read 2", "read 9", "read_at 1", "read_at size-1", "read_at size+3", "read_at -1", "seek 0", "seek 1", "seek size", "seek_to_end", "size" };
static const int NOPS = sizeof OPS / sizeof *OPS;
static void bad(S const& w) { mc::violation(mc::cur_desc, w); }
static S content(FileInfo* f, Subject const& s) { if (s.kind == FILE_) return w32::files["f.txt"]; ssize n = -1; u8* p = file_stream_buf(f, &n); return n > 0 ? S((char*)p, (size_t)n) : S(); }
static void run(Subject const& s, std::vector<int> const& h, long fail)
{
	w32::reset(); long live = w32::live_blocks; FileInfo f; memset(&f, 0x5A, sizeof f);
	S m = s.init; long long pos = 0; char* buf = (char*)malloc(m.size() ? m.size() : 1); memcpy(buf, m.data(), m.size());
	w32::alloc_n = 0; w32::alloc_fail_at = fail; bool opened;
	if (s.kind == FILE_) {
		if (s.exists) w32::files["f.txt"] = m; FileError e = file_open_mode(&f, s.mode, "f.txt"); opened = e == EFileError_NONE;
		bool want = s.exists || !(s.mode & EFileMode_READ); if (want != opened) { bad(mc::sfmt("opening gave %d", (int)e)); return; }
		if (!opened && e != EFileError_NOT_EXISTS) bad(mc::sfmt("opening a missing file gave %d", (int)e));
		if (opened && S(file_name(&f)) != "f.txt") bad("its name is " + S(file_name(&f)));
		if (s.mode & EFileMode_WRITE) m.clear(); if (s.mode & EFileMode_APPEND) pos = (long long)m.size();
	} else if (s.kind == GROWING && m.empty()) opened = file_stream_new(&f, heap());
	else opened = file_stream_open(&f, heap(), (u8*)buf, (ssize)m.size(), (FileStreamFlags)(s.kind == GROWING ? EFileStream_CLONE_WRITABLE : s.kind == FIXED ? EFileStream_WRITABLE : 0));
	if (s.kind != FILE_ && !opened) { if (fail < 0 || fail >= w32::alloc_n) bad("could not be opened"); }
	if (opened) {
		int step = 0; bool stop = false;
		for (int o : h) {
			mc::transition(); S before = m; long long size = (long long)m.size(); step++;
			long allocs = w32::alloc_n; auto failed_alloc = [&] { return fail >= allocs && fail < w32::alloc_n; };
			auto put = [&](long long at, S const& d, ssize* n) -> bool {   // what the write has to do to the model
				*n = 0; if (!s.wr || at < 0) return false; if (s.kind == FIXED) { long long k = at >= size ? 0 : std::min<long long>((long long)d.size(), size - at); m.replace((size_t)std::min(at, size), (size_t)k, d.substr(0, (size_t)k)); *n = (ssize)k; return true; }
				if (d.empty()) return true; if (at > size) m.append((size_t)(at - size), '\0'); if ((size_t)at + d.size() > m.size()) m.resize((size_t)at + d.size()); m.replace((size_t)at, d.size(), d); *n = (ssize)d.size(); return true; };
			auto exact = [&](S const& d) { char* p = (char*)malloc(d.size() ? d.size() : 1); memcpy(p, d.data(), d.size()); return p; };
			auto write = [&](S const& d) { ssize n; bool w = put(pos, d, &n); char* p = exact(d); b32 r = file_write(&f, p, (ssize)d.size()); free(p);
				if (failed_alloc()) { if (r) bad("written without memory for it"); m = before; return; }
				if (!!r != (w && n == (ssize)d.size())) { bad(mc::sfmt("write %d gave %d", step, (int)r)); stop = true; return; } pos += n; };
			auto write_at = [&](S const& d, long long at) { ssize n, got = -7; bool w = put(at, d, &n); char* p = exact(d); b32 r = step & 1 ? file_write_at_check(&f, p, (ssize)d.size(), at, &got) : file_write_at(&f, p, (ssize)d.size(), at); free(p);
				if (failed_alloc()) { if (r) bad("written without memory for it"); m = before; return; }
				if (step & 1 ? !!r != w || (w && got != n) : !!r != (w && n == (ssize)d.size())) { bad(mc::sfmt("write_at %d gave %d, %ld written", step, (int)r, (long)got)); stop = true; return; }
				long long t = file_tell(&f); if (t != pos && !(s.kind == FILE_ && t == at + n)) { bad(mc::sfmt("the cursor moved to %lld", t)); stop = true; } pos = t; };
			auto read_ = [&](long long n, long long at, bool cur) {
				bool can = s.rd && at >= 0; S want = can && at < size ? m.substr((size_t)at, (size_t)n) : S(); char* p = (char*)malloc((size_t)n); memset(p, '!', (size_t)n); ssize got = -7;
				b32 r = cur ? file_read(&f, p, (ssize)n) : step & 1 ? file_read_at_check(&f, p, (ssize)n, at, &got) : file_read_at(&f, p, (ssize)n, at);
				S have(p, (size_t)n); free(p); S full = want + S((size_t)n - want.size(), '!');
				if (!!r != can || (can && have != full) || (!cur && can && (step & 1) && got != (ssize)want.size())) { bad(mc::sfmt("read %d gave %d, ", step, (int)r) + mc::esc(have)); stop = true; return; }
				if (cur) pos += (long long)want.size(); else { long long t = file_tell(&f); if (t != pos && !(s.kind == FILE_ && t == at + (long long)want.size())) { bad(mc::sfmt("the cursor moved to %lld", t)); stop = true; } pos = t; } };
			auto seek = [&](long long to) { long long t = file_seek(&f, to); long long w = s.kind == FILE_ ? to : std::min(to, size); if (t != w) { bad(mc::sfmt("seek gave %lld", t)); stop = true; } pos = w; };
			switch (o) {
			case 0: write("xy"); break; case 1: write("PQRSTU"); break; case 2: write_at("z", 0); break; case 3: write_at("mn", 3); break; case 4: write_at("k", size + 2); break; case 5: write_at("n", -1); break;
			case 6: { S d; for (int i = 0; i < 40; i++) d += (char)('A' + (i + step) % 26); write(d); } break; case 7: write(""); break;
			case 8: read_(2, pos, true); break; case 9: read_(9, pos, true); break; case 10: read_(2, 1, false); break; case 11: if (size) read_(4, size - 1, false); break; case 12: read_(2, size + 3, false); break; case 13: read_(1, -1, false); break;
			case 14: seek(0); break; case 15: seek(1); break; case 16: seek(size); break; case 17: { long long t = file_seek_to_end(&f); if (t != size) { bad(mc::sfmt("seek_to_end gave %lld", t)); stop = true; } pos = size; } break;
			case 18: { long long z = file_size(&f); if (z != size) { bad(mc::sfmt("the size is %lld", z)); stop = true; } } break;
			}
			if (stop) break;
			S c = content(&f, s); if (c != m) { bad(mc::sfmt("after step %d it holds ", step) + mc::esc(c) + " instead of " + mc::esc(m)); break; }
			long long t = file_tell(&f); if (t != pos) { bad(mc::sfmt("after step %d the cursor is at %lld instead of %lld", step, t, pos)); break; }
			mc::trace_ok(); mc::state(mc::hash_str(S(s.name) + "|" + m, (u64)pos));
		}
		w32::alloc_fail_at = -1;
		if (file_close(&f) != EFileError_NONE) bad("closing failed");
	}
	w32::alloc_fail_at = -1;
	if (s.kind == FIXED || s.kind == CONST_) { if (opened && S(buf, strlen(s.init)) != m && h.size()) bad("the buffer does not hold what was written"); }
	else if (s.kind == GROWING && S(buf, strlen(s.init)) != s.init) bad("the cloned buffer was changed");
	free(buf);
	if (w32::open_handles() != 0) bad("a handle stayed open"); if (w32::live_blocks != live) bad(mc::sfmt("%ld blocks of memory stayed in use", w32::live_blocks - live));
}
static void contents()
{
	static const char* C[] = { nullptr, "", "a", "ab\n", "0123456789" };
	for (const char* c : C) for (int zt = 0; zt < 2; zt++) for (long fail = -1; fail < 3; fail++) {
		S key = S("file_read_contents of ") + (c ? mc::esc(c) : S("a missing file")) + (zt ? " terminated" : "") + mc::sfmt(" failing allocation %ld", fail); if (!mc::begin(key)) continue;
		w32::reset(); if (c) w32::files["f.txt"] = c; long live = w32::live_blocks; w32::alloc_n = 0; w32::alloc_fail_at = fail == 0 ? -1 : fail;
		mc::transition(); static FileContents r; if (mc::fatal([&] { r = file_read_contents(heap(), zt, "f.txt"); })) { mc::count(0); w32::alloc_fail_at = -1; continue; } bool ff = w32::alloc_fail_at >= 0 && w32::alloc_fail_at < w32::alloc_n; w32::alloc_fail_at = -1;
		S got = r.data && r.size > 0 ? S((char*)r.data, (size_t)r.size) : S();
		if (!(got == (c ? c : "") || (ff && r.size == 0))) bad("gave " + mc::esc(got) + mc::sfmt(" of size %ld", (long)r.size)); else if (zt && c && *c && !ff && ((char*)r.data)[r.size] != 0) bad("not terminated"); else if (!c && r.data) bad("gave data"); else mc::trace_ok();
		if (r.data) allocator_free(heap(), r.data);
		if (w32::open_handles() != 0) bad("a handle stayed open"); if (w32::live_blocks != live) bad("memory stayed in use");
	}
}
void explore(bool th)
{
	mc::counter_names[0] = "fatal"; contents();
	for (auto& s : SUBJ) {
		int depth = th ? 4 : 3; std::vector<int> h; std::function<void(int, bool)> rec = [&](int left, bool faults) {
			if (mc::stopped()) return;
			for (long fail = faults ? 0 : -1; fail < (faults ? 4 : 0); fail++) { S key = s.name; key += ":"; for (int o : h) { key += " "; key += OPS[o]; key += ","; } if (faults) key += mc::sfmt(" allocation %ld fails", fail); if (mc::begin(key)) { if (mc::fatal([&] { run(s, h, fail); })) { if (faults && s.kind == FILE_) mc::count(0); else bad("a fatal failure"); w32::alloc_fail_at = -1; } } }
			if (left) for (int o = 0; o < NOPS; o++) { h.push_back(o); rec(left - 1, faults); h.pop_back(); } };
		rec(depth, false); if (s.kind == GROWING) rec(2, true);
	}
}
