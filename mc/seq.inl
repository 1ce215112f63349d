/* The C library's containers under a history of operations, called through the generic macros or the functions themselves (direct).
   After the last operation: what it returned, what the container holds, and how many blocks are left once it is freed. */
static gen_AllocatorInfo seq_alloc(void) { gen_AllocatorInfo a; a.Proc = lib_alloc; a.Data = NULL; return a; }
static const char seq_base[4096];
static gen_u8     mk_u8(int v) { return (gen_u8)v; }
static int        of_u8(gen_u8 v) { return (int)v; }
static gen_ssize  mk_ssize(int v) { return (gen_ssize)v * 0x100000001ll; }
static int        of_ssize(gen_ssize v) { return v == (gen_ssize)(int)v * 0x100000001ll ? (int)v : -777; }
static gen_Token  mk_token(int v) { gen_Token t; memset(&t, 0x11, sizeof t); t.Line = v; t.Text.Len = ~v; return t; }
static int        of_token(gen_Token t) { return t.Text.Len == ~t.Line ? (int)t.Line : -777; }
static gen_Str    mk_str(int v) { gen_Str s; s.Ptr = seq_base + v % 4096; s.Len = v; return s; }
static int        of_str(gen_Str s) { return s.Ptr == seq_base + s.Len % 4096 ? (int)s.Len : -777; }
static gen_Macro  mk_macro(int v) { gen_Macro m; memset(&m, 0x22, sizeof m); m.Name = mk_str(v); m.Flags = (gen_MacroFlags)v; return m; }
static int        of_macro(gen_Macro m) { int v = of_str(m.Name); return (gen_MacroFlags)v == m.Flags ? v : -777; }

#define ARRAY(NAME, T, A, MK, OF) \
static void seq_##NAME(int reserve, int direct, int fail_at, const MC_STEP* ops, int n) \
{ \
	int fresh = 1, i, k, r = 1; size_t j; T* it; \
	A a = reserve ? (direct ? A##_init_reserve(seq_alloc(), reserve) : gen_array_init_reserve(T, seq_alloc(), reserve)) : (direct ? A##_init(seq_alloc()) : gen_array_init(T, seq_alloc())); \
	lib_fail = 0; \
	for (i = 0; i < n; i++) { \
		int x = ops[i].a, y = ops[i].b; size_t num = direct ? A##_num(a) : gen_array_num(a); \
		r = 1; if (i == n - 1) lib_fail = fail_at; \
		switch (ops[i].op) { \
		case 0: r = direct ? A##_append(&a, MK(fresh)) : gen_array_append(a, MK(fresh)); fresh++; break; \
		case 1: if (num) { T v = direct ? A##_pop(a) : gen_array_pop(a); r = OF(v); } break; \
		case 2: if ((size_t)x < num) { if (direct) A##_remove_at(a, x); else gen_array_remove_at(a, x); } break; \
		case 3: r = direct ? A##_append_at(&a, MK(fresh), x) : gen_array_append_at(a, MK(fresh), x); fresh++; break; \
		case 4: case 6: { T* p = (T*)malloc(sizeof(T) * x); for (k = 0; k < x; k++) p[k] = MK(fresh++); \
			if (ops[i].op == 4) r = direct ? A##_append_items(&a, p, x) : gen_array_append_items(a, p, x); \
			else r = direct ? A##_append_items_at(&a, p, x, y) : gen_array_append_items_at(a, p, x, y); free(p); break; } \
		case 5: { int keep = lib_fail; A o; lib_fail = 0; o = gen_array_init(T, seq_alloc()); for (k = 0; k < x; k++) gen_array_append(o, MK(fresh + k)); lib_fail = keep; \
			r = A##_append_array(&a, o); for (k = 0; k < x; k++) if (OF(o[k]) != OF(MK(fresh + k))) mc_emitf("source changed "); fresh += x; gen_array_free(o); break; } \
		case 7: if (direct) A##_clear(a); else gen_array_clear(a); break; \
		case 8: r = direct ? A##_fill(a, x, y, MK(fresh)) : gen_array_fill(a, x, y, MK(fresh)); fresh++; break; \
		case 9: r = direct ? A##_resize(&a, x) : gen_array_resize(a, x); if (r) for (j = num; j < (size_t)x; j++) a[j] = MK(fresh++); break; \
		case 10: r = direct ? A##_reserve(&a, x) : gen_array_reserve(a, x); if (r && gen_array_get_header(a)->Capacity < (size_t)x) mc_emitf("capacity below the reserve "); break; \
		case 11: r = direct ? A##_set_capacity(&a, x) : gen_array_set_capacity(&a, x); break; \
		case 12: { size_t before = gen_array_get_header(a)->Capacity; r = direct ? A##_grow(&a, x) : gen_array_grow(&a, x); if (r && (gen_array_get_header(a)->Capacity < (size_t)x || gen_array_get_header(a)->Capacity <= before)) mc_emitf("did not grow "); break; } \
		case 13: { T* b = direct ? A##_back(a) : gen_array_back(a); r = b ? OF(*b) : 0; break; } \
		} \
	} \
	mc_emitf("%d|", fail_at && !lib_fail); lib_fail = 0; \
	if (gen_array_get_header(a)->Capacity < gen_array_get_header(a)->Num) mc_emitf("more elements than capacity "); \
	mc_emitf("%d|", r); \
	for (j = 0; j < (direct ? A##_num(a) : gen_array_num(a)); j++) mc_emitf("%d,", OF(a[j])); \
	mc_emitf("|"); \
	for (it = gen_array_begin(a); it != gen_array_end(a); it = gen_array_next(a, it)) mc_emitf("%d,", OF(*it)); \
	if (direct) A##_free(&a); else gen_array_free(a); \
	mc_emitf("|%s%d", a ? "still set " : "", mc_blocks()); \
}
ARRAY(u8, gen_u8, gen_Array_gen_u8, mk_u8, of_u8)
ARRAY(ssize, gen_ssize, gen_Array_gen_ssize, mk_ssize, of_ssize)
ARRAY(token, gen_Token, gen_Array_gen_Token, mk_token, of_token)

static const unsigned long long SEQ_KEYS[] = { 0, 8, 1, 24, 9, 18, 0x10000000008ull, ~0ull };
#define TABLE(NAME, T, TBL, MK, OF) \
static void map_##NAME(TBL self, gen_u64 key, T value) { mc_emitf("%llx=%d,", (unsigned long long)key, OF(value)); } \
static void mut_##NAME(TBL self, gen_u64 key, T* value) { *value = MK(OF(*value) + 1000); } \
static void seq_##NAME(int reserve, int direct, int fail_at, const MC_STEP* ops, int n) \
{ \
	int fresh = 1, i, k; T* p; \
	TBL t = reserve ? (direct ? TBL##_init_reserve(seq_alloc(), reserve) : gen_hashtable_init_reserve(T, seq_alloc(), reserve)) : (direct ? TBL##_init(seq_alloc()) : gen_hashtable_init(T, seq_alloc())); \
	for (i = 0; i < n; i++) { \
		gen_u64 key = ops[i].b ? (gen_u64)ops[i].a * (ops[i].b == 3 ? 0x100000000ull : (gen_u64)ops[i].b) : SEQ_KEYS[ops[i].a & 7]; int x = ops[i].a; \
		switch (ops[i].op) { \
		case 0: if (direct) TBL##_set(&t, key, MK(fresh)); else gen_hashtable_set(t, key, MK(fresh)); fresh++; break; \
		case 1: if (direct) TBL##_remove(t, key); else gen_hashtable_remove(t, key); break; \
		case 2: if (direct) TBL##_clear(t); else gen_hashtable_clear(t); break; \
		case 3: if (direct) TBL##_grow(&t); else gen_hashtable_grow(&t); break; \
		case 4: if (direct) TBL##_rehash(&t, x); else gen_hashtable_rehash(&t, x); break; \
		case 5: if (direct) TBL##_rehash_fast(t); else gen_hashtable_rehash_fast(t); break; \
		case 6: TBL##_map_mut(t, mut_##NAME); break; \
		case 7: if ((size_t)x < gen_array_get_header(t.Entries)->Num) { if (direct) { TBL##_remove_entry(t, x); TBL##_rehash_fast(t); } else { gen_hashtable_remove_entry(t, x); gen_hashtable_rehash_fast(t); } } break; \
		case 8: p = direct ? TBL##_get(t, key) : gen_hashtable_get(t, key); if (p) *p = MK(fresh++); break; \
		} \
	} \
	for (k = 0; k < 8; k++) { p = direct ? TBL##_get(t, SEQ_KEYS[k]) : gen_hashtable_get(t, SEQ_KEYS[k]); if (p) mc_emitf("%llx:%d,", SEQ_KEYS[k], OF(*p)); } \
	mc_emitf("|"); \
	for (i = 0; i < n; i++) if (ops[i].op == 0 && ops[i].b) { gen_u64 key = (gen_u64)ops[i].a * (ops[i].b == 3 ? 0x100000000ull : (gen_u64)ops[i].b); p = gen_hashtable_get(t, key); if (p) mc_emitf("%llx:%d,", (unsigned long long)key, OF(*p)); } \
	mc_emitf("|"); \
	TBL##_map(t, map_##NAME); \
	if (direct) TBL##_destroy(&t); else gen_hashtable_destroy(t); \
	mc_emitf("|%d", mc_blocks()); \
}
TABLE(strings, gen_Str, gen_StringTable, mk_str, of_str)
TABLE(macros, gen_Macro, MacroTable, mk_macro, of_macro)

/* Arenas of every kind and pools: what each step hands out as an offset into the memory, that it is zeroed and keeps its bytes.
   ops: 0 allocate a bytes at alignment b, 1 free_all, 2 free the newest, 3 free the oldest (of a pool). */
typedef struct seq_block { unsigned char* p; long n; unsigned char tag; } seq_block;
static void seq_blocks(gen_AllocatorInfo al, unsigned char* base, int pool, const MC_STEP* ops, int n, gen_ssize (*left)(void*, gen_ssize), void* of)
{
	seq_block live[64]; int lives = 0, i, k; long j; unsigned char tag = 1;
	for (i = 0; i < n; i++) {
		switch (ops[i].op) {
		case 0: {
			unsigned char* p; if (left) mc_emitf("%ld:", (long)left(of, ops[i].b));
			p = (unsigned char*)gen_alloc_align(al, ops[i].a, ops[i].b);
			if (!p) { mc_emitf("null;"); break; }
			for (j = 0; j < ops[i].a; j++) if (p[j]) { mc_emitf("not zeroed "); break; }
			if (pool) mc_emitf("%d;", (int)((size_t)p % (size_t)ops[i].b)); else mc_emitf("%ld;", (long)(p - base));
			memset(p, tag, (size_t)ops[i].a); live[lives].p = p; live[lives].n = ops[i].a; live[lives++].tag = tag++; break; }
		case 1: gen_free_all(al); lives = 0; break;
		case 2: if (lives) gen_allocator_free(al, live[--lives].p); break;
		case 3: if (lives) { gen_allocator_free(al, live[0].p); memmove(live, live + 1, sizeof live[0] * (size_t)--lives); } break;
		}
		for (k = 0; k < lives; k++) for (j = 0; j < live[k].n; j++) if (live[k].p[j] != live[k].tag) { mc_emitf("block %d changed ", k); break; }
	}
}
static gen_ssize seq_left(void* a, gen_ssize align) { gen_ssize r = gen_arena_size_remaining((gen_Arena*)a, align); return r == gen_arena_size_remaining((gen_Arena*)a, 1) - gen_arena_alignment_of((gen_Arena*)a, align) ? r : -1; }
#define FIXED(S) static gen_ssize seq_left_##S(void* a, gen_ssize align) { return gen_fixed_arena_size_remaining((gen_FixedArena_##S*)a, align); } \
static void seq_fixed_##S(const MC_STEP* ops, int n) \
{ \
	gen_FixedArena_##S* f = (gen_FixedArena_##S*)mc_block(sizeof(gen_FixedArena_##S)); memset(f, 0xEE, sizeof *f); \
	gen_fixed_arena_init(f); \
	mc_emitf("%ld %d|", (long)sizeof f->memory, (int)((size_t)f->memory & 63)); \
	seq_blocks(gen_fixed_arena_allocator_info(f), (unsigned char*)f->memory, 0, ops, n, seq_left_##S, f); \
	gen_fixed_arena_free(f); \
}
FIXED(1KB) FIXED(4KB) FIXED(8KB) FIXED(16KB) FIXED(32KB) FIXED(64KB) FIXED(128KB) FIXED(256KB) FIXED(512KB) FIXED(1MB) FIXED(2MB) FIXED(4MB)
static void seq_arena(int which, const MC_STEP* ops, int n)
{
	gen_Arena a, parent;
	switch (which) {
		case 0: seq_fixed_1KB(ops, n); return;
		case 1: seq_fixed_4KB(ops, n); return;
		case 2: seq_fixed_8KB(ops, n); return;
		case 3: seq_fixed_16KB(ops, n); return;
		case 4: seq_fixed_32KB(ops, n); return;
		case 5: seq_fixed_64KB(ops, n); return;
		case 6: seq_fixed_128KB(ops, n); return;
		case 7: seq_fixed_256KB(ops, n); return;
		case 8: seq_fixed_512KB(ops, n); return;
		case 9: seq_fixed_1MB(ops, n); return;
		case 10: seq_fixed_2MB(ops, n); return;
		case 11: seq_fixed_4MB(ops, n); return;
	}
	if (which == 12) { a = gen_arena_init_from_memory(mc_block(1024), 1024); }
	else if (which == 13) a = gen_arena_init_from_allocator(seq_alloc(), 1024);
	else { parent = gen_arena_init_from_allocator(seq_alloc(), 128); a = gen_arena_init_sub(&parent, 1024); }
	mc_emitf("%ld %d|", (long)a.TotalSize, (int)((size_t)a.PhysicalStart & 63));
	seq_blocks(gen_arena_allocator_info(&a), (unsigned char*)a.PhysicalStart, 0, ops, n, seq_left, &a);
	gen_arena_check(&a);
	gen_arena_free(&a);
	if (which == 14) gen_arena_free(&parent);
	mc_emitf("|%d", mc_blocks() - (which == 12));
}
static void seq_pool(int blocks, int align, const MC_STEP* ops, int n)
{
	int most = 0, i; gen_Pool p; for (i = 0; i < n; i++) if (ops[i].op == 0) most = ops[i].a;
	p = align ? gen_pool_init_align(seq_alloc(), blocks, most, align) : gen_pool_init(seq_alloc(), blocks, most);
	seq_blocks(gen_pool_allocator_info(&p), (unsigned char*)p.PhysicalStart, 1, ops, n, NULL, NULL);
	mc_emitf("|%ld", (long)p.TotalSize);
	gen_pool_clear(&p); mc_emitf("|%ld", (long)p.TotalSize);
	gen_pool_free(&p); mc_emitf("|%d", mc_blocks());
}

void FN1(LIB, seq)(int family, int reserve, int direct, int fail_at, const MC_STEP* ops, int n)
{
	lib_exact = 1; lib_fail = 0;
	switch (family) {
		case 0: seq_u8(reserve, direct, fail_at, ops, n); break;
		case 1: seq_ssize(reserve, direct, fail_at, ops, n); break;
		case 2: seq_token(reserve, direct, fail_at, ops, n); break;
		case 3: seq_strings(reserve, direct, fail_at, ops, n); break;
		case 4: seq_macros(reserve, direct, fail_at, ops, n); break;
		case 5: seq_arena(reserve, ops, n); break;
		case 6: seq_pool(reserve, direct, ops, n); break;
	}
}
