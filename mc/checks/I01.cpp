// I01: contexts: every history of init, deinit, reset, switching, parsing, constructing and defining over two (thorough: three)
// contexts up to the depth bound; every code of every context, the constants and the macros compared after each operation.
#include "gram.hpp"
#include <functional>
#include <map>
using namespace gen; typedef std::string S;
const char* mc::PROPERTY = "I01";
static void bad(S const& what) { mc::violation(mc::cur_desc, what); }
static S text(Code c) { return mc::SB_(code_to_strbuilder(c)); }
static void dead() { _ctx = nullptr; context_counter = 0; w32::live_blocks = 0; mc::t_free_all(); }
static Str T(const char* s) { return Str{ s, (ssize)strlen(s) }; }
static S norm(S const& s) { S r; for (char c : s) if (!isspace((unsigned char)c)) r += c; return r; }
static const char* SRC = "struct Alpha { int a; Beta<int> b = 1; };\n#define PARSED(x) x\nenum Gamma : int { G1, G2 = 2 };\nint fn( int first_parameter, Beta<Gamma> second = {} );\ntemplate<typename T> using Delta = Alpha::Beta<T>;\nnamespace N { class Eps { protected: int e; public: Eps(); }; }\n";
struct Cx { Context c; bool in = false; int variant = 0; std::vector<std::pair<Code, S>> live; std::map<S, int> macros; };
struct World {
	Cx x[3]; int n; int first = -1, cur = -1;
	int inits() { int k = 0; for (int i = 0; i < n; i++) k += x[i].in; return k; }
	void config(int i) { Cx& k = x[i]; memset(&k.c, 0, sizeof k.c);
		if (k.variant == 3) return;                                                   // nothing given
		if (k.variant == 1) k.c.Allocator_DyanmicContainers = k.c.Allocator_Pool = k.c.Allocator_StrCache = k.c.Allocator_Temp = mc::temp();
		if (k.variant == 2) k.c.Allocator_Pool = k.c.Allocator_Temp = mc::temp();     // the others from the fallback
		k.c.InitSize_Fallback_Allocator_Bucket_Size = 1 << 13; k.c.CodePool_NumBlocks = 48; k.c.SizePer_StringArena = 512; k.c.InitSize_LexerTokens = 8; k.c.InitSize_CodePoolsArray = 1; k.c.InitSize_StringArenasArray = 1; }
	void fresh(int i) { x[i].live.clear(); x[i].macros.clear(); x[i].macros["enum_underlying"] = MT_Expression; }
	bool can(int op, int i) {
		switch (op) { case 0: return !x[i].in; case 1: return x[i].in && (i != first || inits() == 1); case 2: return x[i].in; case 3: return x[i].in; default: return cur >= 0 && (op == 6 || x[cur].live.size() < 4); } }
	void keep(Code c, S const& want) { S got = text(c); if (norm(got) != norm(want)) { bad("written as\n" + got + "\ninstead of\n" + want); return; } x[cur].live.push_back({ c, got }); }
	void run(int op, int i) {
		mc::transition();
		switch (op) {
		case 0: config(i); gen::init(&x[i].c); x[i].in = true; if (inits() == 1) first = i; cur = i; fresh(i); break;
		case 1: gen::deinit(&x[i].c); x[i].in = false; fresh(i); if (cur == i) cur = -1; if (first == i) first = -1; break;
		case 2: gen::reset(&x[i].c); fresh(i); break;
		case 3: gen::set_context(&x[i].c); cur = i; break;
		case 4: { S s = SRC; CodeBody b = parse_global_body(Str{ s.data(), (ssize)s.size() }); s.assign(s.size(), '!'); keep(b, "struct Alpha { int a; Beta<int> b = 1; };\n#define PARSED(x) x\nenum Gamma : int { G1, G2 = 2 };\nint fn( int first_parameter, Beta<Gamma> second = {} );\ntemplate< typename T > using Delta = Alpha::Beta<T>;\nnamespace N { class Eps { protected: int e; public: Eps(); }; }\n"); if (!x[cur].macros.count("PARSED")) x[cur].macros["PARSED"] = MT_Expression; break; }
		case 5: {
			CodeTypename ty = def_type(T("Built")); Opts_def_struct o; memset(&o, 0, sizeof o); o.attributes = attrib_api_export;
			CodeBody b = def_body(CT_Class_Body); b.append(access_protected); b.append(def_variable(t_int, T("one"))); b.append(access_public); b.append(def_variable(ty, T("two"))); b.append(fmt_newline); b.append(def_comment(T("c")));
			o.body = b; CodeClass c = def_class(T("Made"), o); S a = mc::S_(attrib_api_export->Content); keep(c, "class " + a + " Made { protected: int one; public: Built two; // c\n };"); break; }
		case 6: { S nm = mc::sfmt("M%d", cur); def_define(Str{ nm.data(), (ssize)nm.size() }, MT_Statement, { }); x[cur].macros[nm] = MT_Statement; break; }
		}
	}
	bool check() {
		if ((get_context() != nullptr) != (cur >= 0) || (cur >= 0 && get_context() != &x[cur].c)) { bad("another context is the current one"); return false; }
		if (cur < 0) return true;
		for (int i = 0; i < n; i++) if (x[i].in) for (auto& l : x[i].live) { S t = text(l.first); if (t != l.second) { bad(mc::sfmt("a code of context %d changed to\n", i) + t + "\nfrom\n" + l.second); return false; } }
		if (mc::S_(access_public->Name) != "public:\n" || access_public->Type != CT_Access_Public || mc::S_(t_int->Name) != "int" || fmt_newline->Type != CT_NewLine || mc::S_(spec_const->Name).size() || spec_const->Type != CT_Specifiers || mc::S_(pragma_once->Name) != "once") { bad("a constant changed"); return false; }
		if (norm(text(spec_const)) != "const" || norm(text(access_private)) != "private:" || norm(text(t_bool)) != "bool") { bad("a constant is written differently: " + text(spec_const) + text(t_bool)); return false; }
		for (int i = 0; i < n; i++) if (x[i].in) { set_context(&x[i].c);
			for (const char* q : { "M0", "M1", "M2", "PARSED", "enum_underlying" }) { Macro* m = lookup_macro(T(q)); auto it = x[i].macros.find(q);
				if ((m != nullptr) != (it != x[i].macros.end()) || (m && (int)m->Type != it->second)) { bad(mc::sfmt("the macro %s is %s in context %d", q, m ? "found wrongly" : "not found", i)); set_context(&x[cur].c); return false; } } }
		set_context(&x[cur].c); mc::trace_ok(); return true;
	}
	void finish() { // the first goes last
		for (int i = 0; i < n; i++) if (x[i].in && i != first) gen::deinit(&x[i].c);
		if (first >= 0) gen::deinit(&x[first].c);
	}
};
static void histories(std::vector<int> const& var, int depth)
{
	struct O { int op, i; S name; }; std::vector<O> ops; const char* N[] = { "init", "deinit", "reset", "set" }; int n = (int)var.size();
	for (int o = 0; o < 4; o++) for (int i = 0; i < n; i++) ops.push_back({ o, i, mc::sfmt("%s %d", N[o], i) });
	ops.push_back({ 4, 0, "parse" }); ops.push_back({ 5, 0, "construct" }); ops.push_back({ 6, 0, "define" });
	// the histories are enumerated over the shape of the world only (who is initialized, who is current)
	struct Sh { bool in[3]; int first, cur, lives[3]; }; std::vector<int> h;
	std::function<void(Sh)> rec = [&](Sh s) {
		if (mc::stopped()) return;
		if (!h.empty()) { if (!mc::mine()) mc::skip_case(); else {
			S key = "contexts"; for (int v : var) key += mc::sfmt(" %d", v); key += ":"; for (int o : h) key += " " + ops[o].name + ";";
			if (mc::begin(key)) {
				static World* w; w = new World; w->n = n; for (int i = 0; i < n; i++) w->x[i].variant = var[i];
				bool ok = true; size_t at = 0; auto nv = mc::S->violations;
				if (mc::fatal([&] { for (at = 0; at < h.size() && mc::S->violations == nv; at++) { w->run(ops[h[at]].op, ops[h[at]].i); if (mc::S->violations == nv) ok = w->check(); if (!ok) return; } })) { bad("a fatal failure in step " + mc::sfmt("%d: ", (int)at + 1) + w32::std_err.substr(0, 200)); dead(); }
				if (ok) { mc::u64 hs = w->cur + 1; for (int i = 0; i < n; i++) hs = mc::mix(hs, w->x[i].in * 64 + w->x[i].live.size() * 8 + w->x[i].macros.size()); mc::state(mc::mix(hs, w->first)); mc::outcome(hs); }
				if (mc::fatal([&] { w->finish(); })) { bad("a fatal failure in the last deinit: " + w32::std_err.substr(0, 200)); dead(); }
				if (w32::live_blocks) { bad(mc::sfmt("%ld blocks of the heap are live after every deinit", w32::live_blocks)); w32::live_blocks = 0; }
				if (get_context()) bad("a context is current after every deinit");
				mc::t_free_all(); delete w; } } }
		if ((int)h.size() == depth) return;
		for (int k = 0; k < (int)ops.size(); k++) { int op = ops[k].op, i = ops[k].i; int cnt = 0; for (int j = 0; j < n; j++) cnt += s.in[j];
			bool can = op == 0 ? !s.in[i] : op == 1 ? s.in[i] && (i != s.first || cnt == 1) : op == 2 ? s.in[i] : op == 3 ? s.in[i] && s.cur != i : s.cur >= 0 && (op == 6 || s.lives[s.cur] < 3);
			if (!can) continue;
			Sh t = s; switch (op) { case 0: t.in[i] = true; if (!cnt) t.first = i; t.cur = i; t.lives[i] = 0; break; case 1: t.in[i] = false; if (t.cur == i) t.cur = -1; if (t.first == i) t.first = -1; t.lives[i] = 0; break; case 2: t.lives[i] = 0; break; case 3: t.cur = i; break; case 4: case 5: t.lives[t.cur]++; }
			h.push_back(k); rec(t); h.pop_back(); }
	};
	Sh s; memset(&s, 0, sizeof s); s.first = s.cur = -1; rec(s);
}
// resetting and doing the same again takes no more memory
static long counted; static void* cnt_proc(void*, AllocType type, ssize size, ssize al, void* old, ssize old_size, u64 fl)
{ AllocatorInfo t = mc::temp(); if (type == EAllocation_ALLOC) counted++; if (type == EAllocation_FREE && old) counted--; return t.Proc(t.Data, type, size, al, old, old_size, fl); }
static void cycles(bool th)
{
	for (int blocks : { 24, 48, 130, 1000 }) for (int arena : { 64, 512, 4096 }) for (int work : { 1, 2, 3, 5, 8, 13 }) for (int kind = 0; kind < 3; kind++) {
		if (!mc::begin(mc::sfmt("cycles of %d of work kind %d and a reset, pools of %d, arenas of %d", work, kind, blocks, arena))) continue;
		World w; w.n = 1; w.x[0].variant = 1; AllocatorInfo ca = { &cnt_proc, nullptr }; counted = 0; long after2 = 0;
		if (mc::fatal([&] {
			w.config(0); Context& c = w.x[0].c; c.CodePool_NumBlocks = blocks; c.SizePer_StringArena = arena; c.Allocator_Pool = c.Allocator_StrCache = ca; gen::init(&c); w.x[0].in = true; w.first = w.cur = 0; w.fresh(0);
			for (int k = 0; k < (th ? 40 : 8); k++) {
				for (int i = 0; i < work; i++) { w.x[0].live.clear(); w.run(kind == 0 ? 4 : kind == 1 ? 5 : 4 + (i & 1), 0); if (kind == 2) for (int j = 0; j < 30; j++) { S s = mc::sfmt("name_%d_%d", i, j); cache_str(Str{ s.data(), (ssize)s.size() }); } }
				if (!w.check()) return;
				gen::reset(&c); w.fresh(0); if (!w.check()) return;
				if (k == 1) after2 = counted; if (k > 1 && counted != after2) { bad(mc::sfmt("%ld blocks after two resets, %ld after %d", after2, counted, k + 1)); return; } }
			w.finish(); if (counted) bad(mc::sfmt("%ld blocks of the pools and arenas are live after deinit", counted)); })) { bad("a fatal failure: " + w32::std_err.substr(0, 200)); dead(); }
		mc::state(mc::mix(blocks * 100 + work, kind)); mc::outcome(after2); w32::live_blocks = 0; mc::t_free_all();
	}
}
// the heap fails at each allocation in turn: the step is reported as failed or did what it should
static void faults(bool th)
{
	int orders[][3] = { { 4, 5, 4 }, { 5, 4, 4 }, { 4, 4, 4 }, { 5, 5, 6 }, { 6, 4, 5 } };
	for (auto& o : orders) for (int bucket : { 1 << 12, 1 << 13, 1 << 16, 0 }) for (int arena : { 64, 512, 0 }) for (int blocks : { 48, 200 }) for (int k = 1; k < (th ? 200 : 60); k++) {
		if (!mc::mine()) { mc::skip_case(); continue; }
		if (!mc::begin(mc::sfmt("allocation %d of the heap fails, buckets of %d, arenas of %d, pools of %d, work %d %d %d", k, bucket, arena, blocks, o[0], o[1], o[2]))) continue;
		World* w = new World; w->n = 1; w32::alloc_n = 0; w32::alloc_fail_at = k; int st = 0;
		bool f = mc::fatal([&] { w->config(0); Context& c = w->x[0].c; c.InitSize_Fallback_Allocator_Bucket_Size = bucket; c.SizePer_StringArena = arena; c.CodePool_NumBlocks = blocks; gen::init(&c); w->x[0].in = true; w->first = w->cur = 0; w->fresh(0); for (int i = 0; i < 3; i++) { w->run(o[i], 0); st = i + 1; } });
		bool reached = w32::alloc_n >= k; w32::alloc_fail_at = -1;
		mc::outcome(f * 100 + st * 10 + reached); mc::state(mc::mix(k * 8 + st, bucket + arena)); if (f && !reached) bad("a failure without a fault: " + w32::std_err.substr(0, 200));
		if (!f) { mc::trace_ok(); w->check(); w->finish(); w32::live_blocks = 0; delete w; } else { mc::count(0); _ctx = nullptr; context_counter = 0; w32::live_blocks = 0; }   // what a fatal failure leaves is not used again
		mc::t_free_all();
	}
}
// sources and strings of any size with nothing configured
static void sizes(bool th)
{
	for (int n : { 1, 100, 3000, 15000, 60000, th ? 400000 : 120000 }) for (int fb = 0; fb < 2; fb++) {
		if (!mc::begin(mc::sfmt("a source of %d declarations, %s", n, fb ? "nothing configured" : "small sizes"))) continue;
		World w; w.n = 1; w.x[0].variant = fb ? 3 : 0; S s, out; int cnt = 0;
		if (mc::fatal([&] { w.config(0); gen::init(&w.x[0].c); for (int i = 0; i < n; i++) s += mc::sfmt("int name_%d;\n", i); CodeBody b = parse_global_body(Str{ s.data(), (ssize)s.size() }); cnt = b->NumEntries; out = text(b); gen::deinit(&w.x[0].c); })) { bad("a fatal failure: " + w32::std_err.substr(0, 200)); dead(); }
		if (cnt != n || norm(out) != norm(s)) bad(mc::sfmt("%d entries, %d characters instead of %d", cnt, (int)out.size(), (int)s.size())); else mc::trace_ok();
		mc::state(n * 2 + fb); mc::outcome(n); mc::transition(n); w32::live_blocks = 0; mc::t_free_all();
	}
	for (int n : { 1, 4096, 1 << 19, (1 << 19) + 1, 1 << 20, (1 << 23) - 64, 1 << 23, (1 << 23) + 1, 20000000 }) {
		if (!mc::begin(mc::sfmt("a string and a body of %d characters, nothing configured", n))) continue;
		World w; w.n = 1; w.x[0].variant = 3; S s((size_t)n, 'x');
		if (mc::fatal([&] { w.config(0); gen::init(&w.x[0].c); Str r = cache_str(Str{ s.data(), n }); CodeBody b = def_body(CT_Global_Body); b.append(untyped_str(Str{ s.data(), n })); b.append(def_variable(t_int, T("a"))); S o = text(b); if (mc::S_(r) != s || norm(o) != s + "inta;") bad("another text"); else mc::trace_ok(); gen::deinit(&w.x[0].c); })) { bad("a fatal failure: " + w32::std_err.substr(0, 200)); dead(); }
		mc::state(n); mc::outcome(n); w32::live_blocks = 0; mc::t_free_all();
	}
}
void explore(bool thorough)
{
	mc::counter_names[0] = "failures reported";
	histories({ 0, 0 }, thorough ? 8 : 6); histories({ 0, 1 }, thorough ? 8 : 6); histories({ 1, 0 }, thorough ? 8 : 6); histories({ 2, 0 }, thorough ? 7 : 5); histories({ 1, 2 }, thorough ? 7 : 5); histories({ 0, 1, 2 }, thorough ? 6 : 5); histories({ 3, 3 }, 3); histories({ 3, 1 }, 3);
	cycles(thorough); faults(thorough); sizes(thorough);
}
