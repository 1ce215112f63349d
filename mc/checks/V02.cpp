// V02: data trees: every history of changes up to the depth bound, from starts around the capacity of their arrays, on the real nodes
// and on a tree model, compared node by node (names, kinds, values, order, parents) after every change, then queried.
#include "mc.hpp"
using namespace gen;
const char* mc::PROPERTY = "V02";
typedef std::string S;
static void bad(S const& w) { mc::violation(mc::cur_desc, w); }
struct N { const char* name; int kind; S str; long long num; double real; std::vector<N> kids; };   // kind: an ADT_Type
static bool branch(N const& n) { return n.kind == EADT_TYPE_OBJECT || n.kind == EADT_TYPE_ARRAY; }
typedef std::vector<int> Path;
static N* at(N& r, Path const& p) { N* n = &r; for (int i : p) n = &n->kids[(size_t)i]; return n; }
static ADT_Node* at(ADT_Node* r, Path const& p) { for (int i : p) r = r->nodes + i; return r; }
static bool inside(Path const& p, Path const& q) { return q.size() >= p.size() && std::equal(p.begin(), p.end(), q.begin()); }   // q is p or below it
static S ps(Path const& p) { S s = "/"; for (int i : p) s += mc::sfmt("%d/", i); return s; }
static const char* NAMES[] = { "a", "bc", "d" }; static const char* VALS[] = { "x", "5", "y z" };
static S show(N const& n) { S s = n.name ? S(n.name) + ":" : S(); if (branch(n)) { s += n.kind == EADT_TYPE_OBJECT ? "{" : "["; for (auto& k : n.kids) s += show(k) + " "; s += n.kind == EADT_TYPE_OBJECT ? "}" : "]"; } else if (n.kind == EADT_TYPE_STRING) s += "'" + n.str + "'"; else if (n.kind == EADT_TYPE_INTEGER) s += std::to_string(n.num); else s += mc::sfmt("%g", n.real); return s; }
static S differ(N const& m, ADT_Node* n, ADT_Node* parent, bool root)
{
	if ((int)n->type != m.kind) return mc::sfmt("a node of kind %d instead of %d", (int)n->type, m.kind);
	if (!root && n->parent != parent) return "a node whose parent is not the one that holds it: " + show(m);
	if (!n->name != !m.name || (m.name && strcmp(n->name, m.name))) return S("a node named ") + (n->name ? n->name : "nothing");
	switch (m.kind) { case EADT_TYPE_STRING: return m.str == n->string ? "" : S("a node with the text ") + n->string; case EADT_TYPE_INTEGER: return m.num == n->integer ? "" : mc::sfmt("a node with the value %lld", (long long)n->integer);
	case EADT_TYPE_REAL: return m.real == n->real ? "" : "a node with another number"; default: break; }
	if (!n->nodes) return "a branch without nodes: " + show(m);
	if (array_num(n->nodes) != m.kids.size()) return mc::sfmt("%ld nodes instead of %ld in ", (long)array_num(n->nodes), (long)m.kids.size()) + show(m);
	for (size_t i = 0; i < m.kids.size(); i++) { S d = differ(m.kids[i], n->nodes + i, n, false); if (!d.empty()) return d; } return "";
}
enum { APP_OBJ, APP_ARR, APP_STR, APP_INT, APP_FLT, AT_STR, AT_OBJ, REMOVE, MOVE, MOVE_AT, SWAP, SET_STR, SET_ARR };
struct Op { int k; Path p, q; int i; };
static S desc(Op const& o) { static const char* NM[] = { "append object", "append array", "append string", "append integer", "append real", "string at", "object at", "remove", "move", "move to", "swap", "set string", "set array" }; return mc::sfmt("%s ", NM[o.k]) + ps(o.p) + (o.k >= MOVE && o.k <= SWAP ? " " + ps(o.q) : S()) + (o.k == AT_STR || o.k == AT_OBJ || o.k == MOVE_AT ? mc::sfmt(" %d", o.i) : S()); }
static const char* new_name(N const& parent) { return parent.kind == EADT_TYPE_OBJECT ? NAMES[parent.kids.size() % 3] : nullptr; }
static N leaf(N const& parent, int kind) { size_t n = parent.kids.size(); return N{ new_name(parent), kind, VALS[n % 3], (long long)n * 5 - 5, n * 1.5 + 0.25, {} }; }
// false: refused. The real tree's memory is freed by destroying what is taken out first.
static bool apply(N& r, Op const& o)
{
	N* n = at(r, o.p); switch (o.k) {
	case APP_OBJ: case APP_ARR: case APP_STR: case APP_INT: case APP_FLT: { if (!branch(*n)) return false; static const int K[] = { EADT_TYPE_OBJECT, EADT_TYPE_ARRAY, EADT_TYPE_STRING, EADT_TYPE_INTEGER, EADT_TYPE_REAL }; N k = leaf(*n, K[o.k]); n->kids.push_back(k); return true; }
	case AT_STR: case AT_OBJ: { if (!branch(*n) || o.i < 0 || o.i > (int)n->kids.size()) return false; N k = leaf(*n, o.k == AT_STR ? EADT_TYPE_STRING : EADT_TYPE_OBJECT); n->kids.insert(n->kids.begin() + o.i, k); return true; }
	case REMOVE: { Path p = o.p; int i = p.back(); p.pop_back(); N* f = at(r, p); f->kids.erase(f->kids.begin() + i); return true; }
	case MOVE: case MOVE_AT: { N moved = *n; N* to = at(r, o.q); int i = o.k == MOVE ? (int)to->kids.size() : o.i; if (!branch(*to) || i < 0 || i > (int)to->kids.size()) return false;
		Path from = o.p; int fi = from.back(); from.pop_back(); bool same = from == o.q; to->kids.insert(to->kids.begin() + i, N{ nullptr, -1 }); if (same && i <= fi) fi++; else if (from.size() > o.q.size() && inside(o.q, from) && from[o.q.size()] >= i) from[o.q.size()]++;
		N* f = at(r, from); f->kids.erase(f->kids.begin() + fi); std::function<bool(N&)> put = [&](N& x) { for (auto& k : x.kids) { if (k.kind == -1) { k = moved; return true; } if (put(k)) return true; } return false; }; put(r); return true; }
	case SWAP: { N a = *n, b = *at(r, o.q); *at(r, o.p) = b; *at(r, o.q) = a; return true; }
	case SET_STR: { const char* nm = n->name; std::vector<N>().swap(n->kids); *n = N{ nm, (int)EADT_TYPE_STRING, "set", 0, 0, {} }; return true; }
	case SET_ARR: { const char* nm = n->name; *n = N{ nm, EADT_TYPE_ARRAY, "", 0, 0, {} }; return true; } }
	return false;
}
// the node the operation gives back, or whether it worked; model: the tree before it
static bool run(N& before, ADT_Node* r, Op const& o, ADT_Node** back)
{
	N* m = at(before, o.p); ADT_Node* n = at(r, o.p); *back = nullptr; N l = branch(*m) ? leaf(*m, 0) : N(); const char* v = VALS[branch(*m) ? m->kids.size() % 3 : 0];
	switch (o.k) {
	case APP_OBJ: *back = adt_append_obj(n, l.name); return *back; case APP_ARR: *back = adt_append_arr(n, l.name); return *back; case APP_STR: *back = adt_append_str(n, l.name, v); return *back;
	case APP_INT: *back = adt_append_int(n, l.name, l.num); return *back; case APP_FLT: *back = adt_append_flt(n, l.name, l.real); return *back;
	case AT_STR: *back = adt_alloc_at(n, o.i); if (*back) adt_set_str(*back, l.name, v); return *back;
	case AT_OBJ: *back = adt_alloc_at(n, o.i); if (*back && adt_set_obj(*back, l.name, heap())) { adt_remove_node(*back); *back = nullptr; } return *back;
	case REMOVE: adt_destroy_branch(n); adt_remove_node(n); return true;
	case MOVE: *back = adt_move_node(n, at(r, o.q)); return *back; case MOVE_AT: *back = adt_move_node_at(n, at(r, o.q), o.i); return *back;
	case SWAP: adt_swap_nodes(n, at(r, o.q)); return true;
	case SET_STR: adt_destroy_branch(n); *back = n; return adt_set_str(n, m->name, "set"); case SET_ARR: adt_destroy_branch(n); return !adt_set_arr(n, m->name, heap()); }
	return false;
}
static void all(N& r, Path p, std::vector<Path>& out, int width) { out.push_back(p); N* n = at(r, p); int k = (int)n->kids.size(); for (int i = 0; i < k; i++) if (i < width || i >= k - 1) { Path q = p; q.push_back(i); all(r, q, out, width); } }
static std::vector<Op> ops(N& r, int width, bool lean)
{
	std::vector<Path> ns; all(r, {}, ns, width); std::vector<Op> v;
	for (auto& p : ns) { N* n = at(r, p); int k = (int)n->kids.size();
		if (lean && branch(*n)) { v.push_back({ APP_OBJ, p, {}, 0 }); v.push_back({ AT_STR, p, {}, 0 }); } else
		if (branch(*n)) { for (int o : { APP_OBJ, APP_ARR, APP_STR, APP_INT, APP_FLT }) v.push_back({ o, p, {}, 0 }); for (int i : { 0, k / 2, k, k + 1, -1 }) { if (i == k / 2 && (i == 0 || i == k)) continue; v.push_back({ AT_STR, p, {}, i }); if (i >= 0 && i < k) v.push_back({ AT_OBJ, p, {}, i }); } }
		else if (!lean) v.push_back({ APP_STR, p, {}, 0 });
		if (p.empty()) continue;
		v.push_back({ REMOVE, p, {}, 0 }); v.push_back({ branch(*n) ? SET_STR : SET_ARR, p, {}, 0 });
		for (auto& q : ns) { N* t = at(r, q); if (branch(*t) && !inside(p, q)) { int c = (int)t->kids.size(); v.push_back({ MOVE, p, q, 0 }); for (int i : { 0, 1, c, c + 1 }) if (i <= 1 ? i < c && (i == 0 || !lean) : !lean) v.push_back({ MOVE_AT, p, q, i }); }
			if (!q.empty() && p < q && !inside(p, q)) v.push_back({ SWAP, p, q, 0 }); } }
	return v;
}
static void build(N& m, ADT_Node* r, Path const& p, const char* what) { for (; *what; what++) { Op o{ *what == 'o' ? (int)APP_OBJ : *what == 'a' ? APP_ARR : *what == 's' ? APP_STR : *what == 'i' ? APP_INT : APP_FLT, p, {}, 0 }; ADT_Node* b; run(m, r, o, &b); apply(m, o); } }
static const int NSTARTS = 7;
static void start(int s, N& m, ADT_Node* r)
{
	bool arr = s == 1 || s == 4; memset(r, 0, sizeof *r); adt_make_branch(r, heap(), "root", arr); m = N{ "root", arr ? (int)EADT_TYPE_ARRAY : (int)EADT_TYPE_OBJECT, "", 0, 0, {} };
	switch (s) { case 2: build(m, r, {}, "oas"); build(m, r, { 0 }, "so"); build(m, r, { 1 }, "io"); build(m, r, { 1, 1 }, "i"); break;
	case 3: build(m, r, {}, "oaiiiiii"); build(m, r, { 0 }, "s"); build(m, r, { 1 }, "s"); break;         // one short of and
	case 4: build(m, r, {}, "ossssssoa"); build(m, r, { 0 }, "si"); build(m, r, { 7 }, "o"); break;      // past the first growth
	case 5: build(m, r, {}, "ao"); build(m, r, { 0 }, "oiiiiiia"); build(m, r, { 0, 0 }, "s"); build(m, r, { 0, 7 }, "i"); break;
	case 6: build(m, r, {}, "oo"); build(m, r, { 0 }, "o"); build(m, r, { 0, 0 }, "o"); build(m, r, { 0, 0, 0 }, "a"); build(m, r, { 1 }, "f"); break; }
}
static const N* find(N const& n, const char* name, bool deep, Path& p) { if (n.kind != EADT_TYPE_OBJECT) return nullptr; for (size_t i = 0; i < n.kids.size(); i++) if (!strcmp(n.kids[i].name, name)) { p.push_back((int)i); return &n.kids[i]; } if (deep) for (size_t i = 0; i < n.kids.size(); i++) { p.push_back((int)i); if (auto f = find(n.kids[i], name, deep, p)) return f; p.pop_back(); } return nullptr; }
static bool named(N const& n) { if (n.kind == EADT_TYPE_OBJECT) for (auto& k : n.kids) if (!k.name || !named(k)) return false; if (n.kind == EADT_TYPE_ARRAY) for (auto& k : n.kids) if (!named(k)) return false; return true; }
static S text(N const& n) { return n.kind == EADT_TYPE_STRING ? n.str : n.kind == EADT_TYPE_INTEGER ? std::to_string(n.num) : ""; }
static void queries(N& m, ADT_Node* r)
{
	if (!named(m)) return; std::vector<Path> ns; all(m, {}, ns, 100);
	for (auto& p : ns) { N* n = at(m, p); ADT_Node* an = at(r, p);
		for (const char* nm : { "a", "bc", "d", "b", "none" }) for (int deep = 0; deep < 2; deep++) { Path q = p; auto f = find(*n, nm, deep, q); ADT_Node* g = adt_find(an, nm, deep); if (g != (f ? at(r, q) : nullptr)) { bad(mc::sfmt("finding %s in %s%s went wrong", nm, ps(p).c_str(), deep ? " deeply" : "")); return; } }
		S uri; Path real; N* c = &m; bool ok = true;   // the path of names and indices that leads here: the first of a name takes it
		for (int i : p) { if (!uri.empty()) uri += "/"; if (c->kind == EADT_TYPE_OBJECT) { const char* nm = c->kids[(size_t)i].name; uri += nm; size_t j = 0; while (strcmp(c->kids[j].name, nm)) j++; if ((int)j != i) ok = false; } else uri += std::to_string(i); c = &c->kids[(size_t)i]; }
		for (int slash = 0; slash < 2; slash++) { S u = slash ? "/" + uri : uri; ADT_Node* g = adt_query(r, u.c_str()); if (ok && g != an) { bad("the query " + u + " finds another node"); return; } if (!ok && g == an) { bad("the query " + u + " does not find the first of that name"); return; } }
		if (!ok) continue;
		if (branch(*n)) { S past = uri + (uri.empty() ? "" : "/") + (n->kind == EADT_TYPE_ARRAY ? std::to_string(n->kids.size()) : S("none")); if (adt_query(r, past.c_str())) { bad("the query " + past + " finds something"); return; } if (adt_query(an, n->kind == EADT_TYPE_ARRAY ? "99/a" : "none/a")) { bad("a query through nothing finds something"); return; } }
		S pre = uri.empty() ? S() : uri + "/";
		if (n->kind == EADT_TYPE_ARRAY) for (const char* v : { "x", "5", "y z", "0", "-5", "none", "1" }) { ADT_Node* want = nullptr; for (size_t i = 0; i < n->kids.size() && !want; i++) if (!branch(n->kids[i]) && n->kids[i].kind != EADT_TYPE_REAL && text(n->kids[i]) == v) want = an->nodes + i; S u = pre + "[" + v + "]"; if (adt_query(r, u.c_str()) != want) { bad("the query " + u + " finds another node"); return; } }
		for (const char* f : { "a", "bc", "d" }) for (const char* v : { "x", "5", "y z", "0", "none", "-5" }) {
			auto has = [&](N const& o) { for (auto& k : o.kids) if (!strcmp(k.name, f) && !branch(k) && k.kind != EADT_TYPE_REAL && text(k) == v) return true; return false; };
			ADT_Node* want = nullptr; if (n->kind == EADT_TYPE_OBJECT) want = has(*n) ? an : nullptr; else if (n->kind == EADT_TYPE_ARRAY) { for (size_t i = 0; i < n->kids.size() && !want; i++) if (n->kids[i].kind == EADT_TYPE_OBJECT && has(n->kids[i])) want = an->nodes + i; } else continue;
			S u = pre + "[" + f + "=" + v + "]"; if (adt_query(r, u.c_str()) != want) { bad("the query " + u + " finds another node"); return; }
			u += S("/") + f; ADT_Node* w2 = want ? adt_find(want, f, false) : nullptr; if (adt_query(r, u.c_str()) != w2) { bad("the query " + u + " finds another node"); return; } } }
}
static int tree_size(N const& n) { int k = 1; for (auto& c : n.kids) k += tree_size(c); return k; }
static void history(int s, std::vector<Op> const& h, long fail)
{
	w32::reset(); long live = w32::live_blocks; ADT_Node r; N m; start(s, m, &r); bool stop = false;
	S d0 = differ(m, &r, nullptr, true); if (!d0.empty()) bad("the start is wrong: " + d0);
	else for (size_t i = 0; i < h.size() && !stop; i++) {
		auto& o = h[i]; N want = m; bool ok = apply(want, o); ADT_Node* back = nullptr; bool got = false; mc::transition();
		bool f = fail >= 0 && i + 1 == h.size(); if (o.k == SET_ARR && f) break;   // a node that is already made anew has nothing to go back to
		w32::alloc_n = 0; w32::alloc_fail_at = f ? fail : -1;
		bool t = mc::fatal([&] { got = run(m, &r, o, &back); }); bool hit = f && w32::alloc_n > fail; w32::alloc_fail_at = -1;
		if (t) { if (!hit) bad("a fatal failure"); stop = true; return; }
		if (hit) { mc::count(0); if (got) { bad("done without the memory for it"); break; } want = m; } else if (got != ok) { bad(ok ? "refused" : "not refused"); break; }
		m = want; S d = differ(m, &r, nullptr, true); if (!d.empty()) { bad("the tree " + show(m) + " has " + d); stop = true; if (hit) return; break; }
		if (got && back && o.k != SET_STR) { std::vector<Path> ns; all(m, {}, ns, 100); bool in = false; for (auto& p : ns) in |= at(&r, p) == back; if (!in) { bad("what it gave back is not in the tree"); break; }
			if (o.k == MOVE_AT || o.k == MOVE) { ptrdiff_t ix = back - back->parent->nodes; if (o.k == MOVE ? ix != (ptrdiff_t)array_num(back->parent->nodes) - 1 : ix != o.i && ix != o.i - 1) { bad("what it gave back is not the moved node"); break; } } }
	}
	if (!mc::stopped() && fail < 0) { mc::state(mc::hash_str(show(m), (u64)s)); mc::trace_ok(); queries(m, &r); }
	adt_destroy_branch(&r); if (w32::live_blocks != live) bad(mc::sfmt("%ld blocks stayed in use", w32::live_blocks - live));
}
void explore(bool th)
{
	mc::counter_names[0] = "failed allocation";
	for (int s = 0; s < NSTARTS; s++) {
		N m; { w32::reset(); ADT_Node r; start(s, m, &r); adt_destroy_branch(&r); }
		int depth = (s < 2 ? 3 : 2) + (th ? 1 : 0), width = s == 3 || s == 4 || s == 5 ? 2 : th ? 2 : 4;
		std::vector<Op> h; std::function<void(N&, int, S const&)> rec = [&](N& cur, int left, S const& key) {
			if (mc::stopped()) return;
			for (long f = -1; f < (h.empty() ? 0 : 2); f++) { if (!mc::mine()) { mc::skip_case(); continue; } if (mc::begin(mc::sfmt("start %d", s) + key + (f < 0 ? S() : mc::sfmt(": allocation %ld fails", f)))) history(s, h, f); }
			if (left) for (auto& o : ops(cur, width, s >= 2 && !h.empty() && th)) { N n = cur; apply(n, o); h.push_back(o); rec(n, left - 1, key + ", " + desc(o)); h.pop_back(); } };
		rec(m, depth, "");
	}
}
