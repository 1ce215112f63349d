// C03: arenas, fixed arenas, pools, heap and the context's fallback allocator: every operation sequence up to a depth.
// Invariant in every state: live blocks are aligned, in bounds, zero-filled when handed out, disjoint, and keep their bytes.
#include "mc.hpp"
using namespace gen;
const char* mc::PROPERTY = "C03";

struct Blk { unsigned char* p; gen::ssize n; unsigned char tag; };
struct World {
	std::vector<Blk> live; unsigned char next = 1; std::string why;
	std::vector<std::pair<unsigned char*, gen::ssize>> region;      // where blocks may lie (empty: anywhere)
	bool fail(std::string s) { if (why.empty()) why = s; return false; }
	bool check()
	{
		for (auto& b : live) for (gen::ssize i = 0; i < b.n; i++) if (b.p[i] != b.tag) return fail(mc::sfmt("byte %ld of a live %ld byte block changed from %02x to %02x", (long)i, (long)b.n, b.tag, b.p[i]));
		return true;
	}
	bool add(void* v, gen::ssize n, gen::ssize align, gen::ssize kept, unsigned char keep_tag, bool zeroed)
	{
		unsigned char* p = (unsigned char*)v;
		if (!p) return fail("no block was returned");
		if ((uintptr_t)p % align) return fail(mc::sfmt("block at %% %ld = %ld is not aligned", (long)align, (long)((uintptr_t)p % align)));
		if (!region.empty()) { bool in = false; for (auto& r : region) if (p >= r.first && p + n <= r.first + r.second) in = true; if (!in) return fail(mc::sfmt("a %ld byte block lies (partly) outside of the allocator's memory", (long)n)); }
		for (auto& b : live) if (p < b.p + b.n && b.p < p + n) return fail(mc::sfmt("a %ld byte block overlaps a live %ld byte block", (long)n, (long)b.n));
		for (gen::ssize i = 0; i < kept; i++) if (p[i] != keep_tag) return fail(mc::sfmt("byte %ld lost by resize", (long)i));
		if (zeroed) for (gen::ssize i = kept; i < n; i++) if (p[i]) return fail(mc::sfmt("byte %ld of a new block is %02x, not zero", (long)i, p[i]));
		memset(p, next, n); live.push_back({p, n, next}); next = next == 255 ? 1 : next + 1;
		return true;
	}
};

// ---------------------------------------------------------------- arena
struct ASt { int op; int size, align; };                        // 0 alloc, 1 resize newest, 2 resize oldest, 3 free newest, 4 free_all
static std::vector<ASt> arena_alphabet()
{
	std::vector<ASt> r;
	for (int a : {16, 1, 8, 64}) for (int s : {1, 16, 24, 57}) r.push_back({0, s, a});
	r.push_back({0, 0, 16}); r.push_back({1, 40, 16}); r.push_back({1, 8, 16}); r.push_back({2, 33, 8}); r.push_back({3,0,0}); r.push_back({4,0,0});
	return r;
}
static const char* an[] = { "alloc", "resize newest", "resize oldest", "free newest", "free_all" };
// kinds: 0 from memory at an odd address, 1 from the allocator, 2 FixedArena<1KB>, 3 a sub-arena of one from the allocator
static bool arena_run(int kind, gen::ssize total, int skew, std::vector<ASt> const& A, std::vector<int> const& seq, std::string& why)
{
	mc::t_free_all();
	unsigned char* raw = nullptr; Arena arena, parent; static FixedArena_1KB* fx = nullptr; AllocatorInfo al; Arena* ar = &arena;
	World w;
	if (kind == 0) { raw = (unsigned char*)malloc(total + skew); arena = arena_init_from_memory(raw + skew, total); }
	else if (kind == 1) arena = arena_init_from_allocator(mc::temp(), total);
	else if (kind == 3) { parent = arena_init_from_allocator(mc::temp(), 64); arena = arena_init_sub(& parent, total); }
	else { fx = (FixedArena_1KB*)malloc(sizeof(FixedArena_1KB)); memset(fx, 0xEE, sizeof *fx); fixed_arena_init(fx); total = 1024; ar = &fx->arena; }
	al = kind == 2 ? fixed_arena_allocator_info(fx) : arena_allocator_info(ar);
	unsigned char* base = (unsigned char*)ar->PhysicalStart; 
	w.region.push_back({base, total});
	gen::ssize used = 0; bool ok = true;                          // model: the bump offset
	for (size_t i = 0; i < seq.size() && ok; i++) {
		ASt s = A[seq[i]]; mc::transition();
		auto bump = [&](gen::ssize size, gen::ssize align) { gen::ssize pad = (align - ((uintptr_t)base + used) % align) % align; gen::ssize t = (size + align - 1) / align * align; return pad + t; };
		auto room = [&](gen::ssize size, gen::ssize align) { return used + bump(size, align) <= total; };
		switch (s.op) {
		case 0: {
			bool fits = room(s.size, s.align);
			gen::ssize rem = arena_size_remaining(ar, s.align); gen::ssize pad = (s.align - ((uintptr_t)base + used) % s.align) % s.align;
			gen::ssize rem2 = kind != 2 ? ar->size_remaining(s.align) : fixed_arena_size_remaining(fx, s.align), rem3 = kind != 2 ? size_remaining(*ar, s.align) : fx->size_remaining(s.align);
			if (rem2 != rem || rem3 != rem) { ok = w.fail(mc::sfmt("reports %ld, %ld and %ld bytes remaining", (long)rem, (long)rem2, (long)rem3)); break; }
			if (arena_alignment_of(ar, s.align) != pad || ar->alignment_of(s.align) != pad) { ok = w.fail("the padding to an alignment is wrong"); break; }
			if (rem != total - used - pad) { ok = w.fail(mc::sfmt("reports %ld bytes remaining, %ld are", (long)rem, (long)(total - used - pad))); break; }
			void* p = nullptr; bool f = mc::fatal([&]{ p = alloc_align(al, s.size, s.align); });
			if (!fits) { if (!f) ok = w.fail("a request that does not fit was granted"); else ok = w.check(); break; }
			if (f) { ok = w.fail(mc::sfmt("a request of %d bytes that fits was refused", s.size)); break; }
			used += bump(s.size, s.align);
			ok = w.check() && w.add(p, s.size, s.align, 0, 0, true); break; }
		case 1: case 2: {
			if (w.live.empty()) break; size_t k = s.op == 1 ? w.live.size() - 1 : 0; Blk b = w.live[k]; if (b.n == 0) break;
			gen::ssize want = s.size; bool same = want <= b.n;       // never shrinks in place, keeps the block
			if (!same && !room(want, s.align)) break;
			void* p = nullptr; bool f = mc::fatal([&]{ p = resize_align(al, b.p, b.n, want, s.align); });
			if (f) { ok = w.fail("resize within the remaining room was refused"); break; }
			if (p == b.p) { ok = same ? w.check() : w.fail("grown in place over other memory"); break; }
			used = (unsigned char*)base ? ar->TotalUsed : used; 
			w.live.erase(w.live.begin() + k);
			ok = w.check() && w.add(p, want, s.align, b.n < want ? b.n : want, b.tag, want > b.n); 
			break; }
		case 3: if (w.live.empty()) break; { Blk b = w.live.back(); w.live.pop_back(); allocator_free(al, b.p); ok = w.check(); } break;
		case 4: free_all(al); w.live.clear(); used = 0; if (ar->TotalUsed != 0) ok = w.fail("free_all left the arena used"); break;
		}
		if (ok && ar->TotalUsed > total) ok = w.fail("more used than there is");
	}
	mc::u64 h = mc::mix(kind * 100 + skew, used); for (auto& b : w.live) h = mc::mix(h, mc::mix(b.p - base, b.n)); mc::state(h); mc::outcome(mc::mix(used, w.live.size()));
	if (ok && kind == 3) arena_free(& parent);
	if (ok && (kind == 1 || kind == 3)) { arena_free(ar); if (mc::t_live) ok = w.fail("the arena's memory is live after arena_free"); }
	if (raw) free(raw);
	if (kind == 2) free(fx);
	mc::trace_ok(); why = w.why; return ok;
}
template<class F, class N> static void sequences(const char* what, int n, int depth, N name, F run)
{
	for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) {
		if (!mc::begin(mc::sfmt("%s: %s; %s; then every continuation to depth %d", what, name(p).c_str(), name(q).c_str(), depth))) continue;
		std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& seq) {
			std::string why;
			if (!run(seq, why)) { std::string s; for (int i : seq) s += name(i) + "; "; mc::violation(std::string(what) + ": " + s, why); return; }
			if ((int)seq.size() < depth) for (int i = 0; i < n; i++) { seq.push_back(i); rec(seq); seq.pop_back(); if (mc::stopped()) return; }
		};
		std::vector<int> seq = {p, q}; rec(seq);
	}
}
static void arenas(bool thorough)
{
	auto A = arena_alphabet(); auto nm = [&](int i) { return mc::sfmt("%s(%d,%d)", an[A[i].op], A[i].size, A[i].align); };
	int d = thorough ? 5 : 4;
	for (int skew : {0, 1, 8}) for (int total : {64, 160, 401}) { sequences(mc::sfmt("arena over %d bytes at offset %d", total, skew).c_str(), (int)A.size(), total == 160 ? d : d - 1, nm, [&](std::vector<int>& s, std::string& why) { return arena_run(0, total, skew, A, s, why); }); }
	sequences("arena from an allocator, 160 bytes", (int)A.size(), d, nm, [&](std::vector<int>& s, std::string& why) { return arena_run(1, 160, 0, A, s, why); });
	sequences("sub-arena of 160 bytes", (int)A.size(), d - 1, nm, [&](std::vector<int>& s, std::string& why) { return arena_run(3, 160, 0, A, s, why); });
	// fixed arena: bigger blocks so that it fills
	std::vector<ASt> B; for (int a : {16, 1, 64}) for (int s : {1, 200, 500, 1024}) B.push_back({0, s, a}); B.push_back({1, 240, 16}); B.push_back({3,0,0}); B.push_back({4,0,0});
	auto nb = [&](int i) { return mc::sfmt("%s(%d,%d)", an[B[i].op], B[i].size, B[i].align); };
	sequences("FixedArena_1KB", (int)B.size(), d - 1, nb, [&](std::vector<int>& s, std::string& why) { return arena_run(2, 1024, 0, B, s, why); });
}
// ---------------------------------------------------------------- pool
enum { P_ALLOC, P_FREE_NEW, P_FREE_OLD, P_FREE_MID, P_CLEAR, P_FREE_ALL, P_N };
static const char* pn[] = { "alloc", "free newest", "free oldest", "free middle", "pool_clear", "free_all" };
static bool pool_run(int blocks, int bsize, int balign, std::vector<int> const& seq, std::string& why)
{
	mc::t_free_all(); World w;
	// backing is a heap block of exactly the pool's size
	Pool pool = balign ? pool_init_align(heap(), blocks, bsize, balign) : pool_init(heap(), blocks, bsize);
	int al = balign ? balign : 16; AllocatorInfo ai = pool_allocator_info(&pool); bool ok = true;
	for (size_t i = 0; i < seq.size() && ok; i++) { mc::transition();
		switch (seq[i]) {
		case P_ALLOC: { void* p = nullptr; bool full = (int)w.live.size() == blocks; bool f = mc::fatal([&]{ p = alloc_align(ai, bsize, al); });
			if (full) { if (!f) ok = w.fail("an exhausted pool handed out a block"); else ok = w.check(); break; }
			if (f) { ok = w.fail(mc::sfmt("refused although %d of %d blocks are free", blocks - (int)w.live.size(), blocks)); break; }
			ok = w.check() && w.add(p, bsize, al, 0, 0, true); break; }
		case P_FREE_NEW: case P_FREE_OLD: case P_FREE_MID: if (w.live.empty()) break; { size_t k = seq[i] == P_FREE_NEW ? w.live.size() - 1 : seq[i] == P_FREE_OLD ? 0 : w.live.size() / 2; Blk b = w.live[k]; w.live.erase(w.live.begin() + k); allocator_free(ai, b.p); ok = w.check(); } break;
		case P_CLEAR: pool_clear(&pool); w.live.clear(); break;
		case P_FREE_ALL: free_all(ai); w.live.clear(); break;
		}
		if (ok && pool.TotalSize != (gen::ssize)w.live.size() * bsize) ok = w.fail(mc::sfmt("reports %ld bytes used with %zu blocks of %d live", (long)pool.TotalSize, w.live.size(), bsize));
	}
	mc::u64 h = mc::mix(blocks * 1000 + bsize, balign); for (auto& b : w.live) h = mc::mix(h, b.p - (unsigned char*)pool.PhysicalStart); mc::state(h); mc::outcome(mc::mix(h, 1));
	long before = w32::live_blocks; pool_free(&pool); if (ok && w32::live_blocks != before - 1) ok = w.fail("pool_free did not give the memory back");
	mc::trace_ok(); why = w.why; return ok;
}
// ---------------------------------------------------------------- the context's fallback allocator (several arenas in buckets)
struct FSt { int op; int size, align; };
static bool fb_run(std::vector<FSt> const& A, std::vector<int> const& seq, std::string& why)
{
	World w; static Context c; memset(&c, 0, sizeof c); bool ok = true;
	c.InitSize_Fallback_Allocator_Bucket_Size = 4096 * 8; c.CodePool_NumBlocks = 64; c.SizePer_StringArena = 4096; c.InitSize_LexerTokens = 64; 
	gen::init(&c);
	AllocatorInfo al = c.Allocator_Temp;
	for (size_t i = 0; i < seq.size() && ok; i++) { mc::transition(); FSt s = A[seq[i]];
		switch (s.op) {
		case 0: { void* p = nullptr; if (mc::fatal([&]{ p = alloc_align(al, s.size, s.align); })) { ok = w.fail("a request smaller than a bucket was refused"); break; } ok = w.check() && w.add(p, s.size, s.align, 0, 0, true); break; }
		case 1: { if (w.live.empty()) break; size_t k = s.align ? 0 : w.live.size() - 1; Blk b = w.live[k]; void* p = nullptr; if (mc::fatal([&]{ p = resize(al, b.p, b.n, s.size); })) { ok = w.fail("a resize smaller than a bucket was refused"); break; }
			if (p == b.p && s.size <= b.n) { ok = w.check(); break; }
			w.live.erase(w.live.begin() + k); ok = w.check() && w.add(p, s.size, 16, b.n < s.size ? b.n : s.size, b.tag, s.size > b.n); break; }
		case 2: if (w.live.empty()) break; { Blk b = w.live.back(); w.live.pop_back(); allocator_free(al, b.p); ok = w.check(); } break;
		case 3: def_comment({ "x", 1 }); ok = w.check(); break;       // the library's own allocations share the buckets
		}
		// every live block lies inside one of the buckets
		if (ok) for (auto& b : w.live) { bool in = false; for (gen::usize k = 0; k < c.Fallback_AllocatorBuckets.num(); k++) { Arena& a = c.Fallback_AllocatorBuckets[k]; unsigned char* s0 = (unsigned char*)a.PhysicalStart; if (b.p >= s0 && b.p + b.n <= s0 + a.TotalUsed) in = true; } if (!in) { ok = w.fail("a live block lies outside of every bucket's used part"); break; } }
	}
	mc::u64 h = c.Fallback_AllocatorBuckets.num(); for (auto& b : w.live) h = mc::mix(h, b.n); mc::state(h); mc::outcome(h);
	gen::deinit(&c); mc::trace_ok();
	if (ok && w32::live_blocks != 0) { ok = w.fail(mc::sfmt("%ld heap blocks are live after deinit", w32::live_blocks)); w32::live_blocks = 0; }
	why = w.why; return ok;
}
// ---------------------------------------------------------------- heap allocator and memory primitives
static void primitives(bool thorough)
{
	for (int size : {0, 1, 7, 8, 16, 100}) for (int align : {1, 2, 8, 16, 64, 256}) for (int nsz : {0, 1, 8, 50, 300}) {
		if (!mc::begin(mc::sfmt("heap: alloc(%d, align %d), resize to %d", size, align, nsz))) continue;
		if (align < 8) align = 8; World w; long before = w32::live_blocks;
		void* p = alloc_align(heap(), size, align); bool ok = w.add(p, size, align, 0, 0, true); mc::transition(); mc::trace_ok();
		Blk b = w.live[0]; void* q = resize_align(heap(), p, size, nsz, align);
		if (ok && nsz == 0) { if (q && size) ok = w.fail("resize to 0 returned a block"); }
		else if (ok) { if (q != p) { w.live.clear(); ok = w.add(q, nsz, align, b.n < nsz ? b.n : nsz, b.tag, nsz > b.n); } else ok = w.check(); }
		if (q && !(nsz == 0 && size)) allocator_free(heap(), q);
		if (ok && w32::live_blocks != before && size) ok = w.fail("heap blocks leaked"); w32::live_blocks = before;
		mc::state(mc::mix(size, mc::mix(align, nsz)));
		if (!ok) mc::violation(mc::cur_desc, w.why);
	}
	// mem_copy / mem_move / mem_set / mem_find on every (offset, offset, length) with every relative alignment
	int L = thorough ? 72 : 44;
	for (int d = 0; d < 24; d++) for (int s = 0; s < 24; s++) {
		if (!mc::begin(mc::sfmt("mem_move from offset %d to offset %d, every length to %d", s, d, L))) continue;
		for (int n = 0; n <= L; n++) {
			int tot = std::max(d, s) + n; unsigned char* buf = (unsigned char*)malloc(tot ? tot : 1); std::vector<unsigned char> m(tot);
			for (int i = 0; i < tot; i++) m[i] = buf[i] = (unsigned char)(i * 7 + 1);
			void* r = mem_move(buf + d, buf + s, n); std::vector<unsigned char> src(m.begin() + s, m.begin() + s + n); std::copy(src.begin(), src.end(), m.begin() + d);
			mc::transition(); mc::trace_ok(); mc::state(mc::mix(mc::mix(d, s), n));
			MC_CHECK(r == buf + d && (tot == 0 || memcmp(buf, m.data(), tot) == 0), mc::cur_desc + mc::sfmt(" n=%d", n), "mem_move of %d bytes from %d to %d gives other bytes", n, s, d);
			free(buf);
		}
	}
	for (int off = 0; off < 16; off++) {
		if (!mc::begin(mc::sfmt("mem_set, mem_find and mem_copy at offset %d, every length to 200", off))) continue;
		for (int n = 0; n <= 200; n++) for (int c : {0, 1, 0x5A, 0xFF}) {
			unsigned char* buf = (unsigned char*)malloc(off + n + 8); memset(buf, 0x33, off + n + 8); 
			void* r = mem_set(buf + off, (u8)c, n); bool ok = r == buf + off; for (int i = 0; i < off + n + 8; i++) if (buf[i] != (i >= off && i < off + n ? c : 0x33)) ok = false;
			mc::transition(); mc::trace_ok(); mc::state(mc::mix(mc::mix(off, n), c + 1000));
			MC_CHECK(ok, mc::cur_desc + mc::sfmt(" mem_set n=%d c=%d", n, c), "mem_set of %d bytes at offset %d with %d does not fill exactly these bytes", n, off, c);
			free(buf);
		}
		for (int n = 0; n <= 40; n++) for (int at = -1; at < n; at++) for (int c : {1, 0x80, 0xFF, 0}) {
			unsigned char* buf = (unsigned char*)malloc(off + n ? off + n : 1); for (int i = 0; i < off + n; i++) buf[i] = (unsigned char)(c ^ 0x11); if (at >= 0) { buf[off + at] = (unsigned char)c; }
			void const* r = mem_find(buf + off, (u8)c, n); void const* want = at < 0 ? nullptr : buf + off + at; mc::transition();
			MC_CHECK(r == want, mc::cur_desc + mc::sfmt(" mem_find n=%d at=%d c=%d", n, at, c), "mem_find of %d in %d bytes found index %ld, expected %d", c, n, r ? (long)((unsigned char*)r - buf - off) : -1, at);
			unsigned char* o = (unsigned char*)malloc(n ? n : 1); mem_copy(o, buf + off, n); MC_CHECK(n == 0 || memcmp(o, buf + off, n) == 0, mc::cur_desc + " mem_copy", "mem_copy gives other bytes"); free(o);
			free(buf);
		}
	}
	for (long v = 0; v <= 70; v++) { if (!mc::begin(mc::sfmt("alignment arithmetic on %ld", v))) continue;
		for (long a : {1, 2, 4, 8, 16, 64}) { mc::transition(); long w = (v + a - 1) / a * a; MC_CHECK(align_forward_s64(v, a) == w, mc::cur_desc, "align_forward_s64(%ld,%ld) = %ld", v, a, (long)align_forward_s64(v, a)); MC_CHECK((long)(intptr_t)align_forward((void*)v, a) == w, mc::cur_desc + " ptr", "align_forward(%ld,%ld)", v, a); }
		bool p2 = v > 0; for (long x = v; x > 1; x /= 2) if (x % 2) p2 = false; MC_CHECK((is_power_of_two(v) != 0) == p2, mc::cur_desc, "is_power_of_two(%ld) is %d", v, (int)is_power_of_two(v));
		mc::state(v + 77777); }
}
void explore(bool thorough)
{
	primitives(thorough);
	arenas(thorough);
	for (int blocks : {1, 2, 3, 5}) for (int bs : {16, 24, 32, 128}) for (int al : {0, 8, 64}) sequences(mc::sfmt("pool of %d blocks of %d bytes, align %d", blocks, bs, al).c_str(), P_N, thorough ? 8 : 6, [](int i) { return std::string(pn[i]); }, [&](std::vector<int>& s, std::string& why) { return pool_run(blocks, bs, al, s, why); });
	std::vector<FSt> F = { {0,1,16}, {0,100,16}, {0,4096*8,16}, {0,4096*8-16,16}, {0,4096*4,64}, {0,20000,1}, {1,64,0}, {1,4096*8,0}, {1,9000,1}, {2,0,0}, {3,0,0} };
	static const char* fnm[] = { "alloc", "resize", "free", "def_comment" };
	sequences("fallback allocator, 32 KB buckets", (int)F.size(), thorough ? 5 : 4, [&](int i) { return mc::sfmt("%s(%d,%d)", fnm[F[i].op], F[i].size, F[i].align); }, [&](std::vector<int>& s, std::string& why) { return fb_run(F, s, why); });
}
