// C01: Array<T> against std::vector, every operation sequence up to a depth, over the real allocator hook.
#include "mc.hpp"
using namespace gen;
const char* mc::PROPERTY = "C01";

typedef std::vector<int> V;
static const long NONE = -1;

// alphabet: simplest first
enum Op { APPEND, POP, REMOVE_AT, APPEND_AT, APPEND_ITEMS, APPEND_ARRAY, APPEND_ITEMS_AT, CLEAR, FILL, RESIZE, RESERVE, SET_CAPACITY, GROW, BACK, NOPS };
struct Step { int op, a, b; };
static const char* names[] = { "append", "pop", "remove_at", "append_at", "append_items", "append_array", "append_items_at", "clear", "fill", "resize", "reserve", "set_capacity", "grow", "back" };

static std::vector<Step> alphabet(bool wide)
{
	std::vector<Step> r;
	r.push_back({APPEND,0,0}); r.push_back({POP,0,0});
	for (int i : {0,1,3}) r.push_back({REMOVE_AT,i,0});
	for (int i : {0,1,2,9}) r.push_back({APPEND_AT,i,0});
	for (int n : {1,2,9}) r.push_back({APPEND_ITEMS,n,0});
	r.push_back({APPEND_ARRAY,3,0});
	for (int n : {1,7}) for (int i : {0,1,9}) r.push_back({APPEND_ITEMS_AT,n,i});
	r.push_back({CLEAR,0,0});
	r.push_back({FILL,0,1}); r.push_back({FILL,1,3}); r.push_back({FILL,0,99});
	for (int n : {1,2,26}) r.push_back({RESIZE,n,0});
	for (int n : {4,11}) r.push_back({RESERVE,n,0});
	for (int n : {1,3,9}) r.push_back({SET_CAPACITY,n,0});
	r.push_back({GROW,5,0}); r.push_back({GROW,30,0});
	r.push_back({BACK,0,0});
	if (wide) {   // sizes far beyond what one growth step gives
		for (int n : {26,41,100,333}) { r.push_back({RESIZE,n,0}); r.push_back({APPEND_ITEMS,n,0}); r.push_back({APPEND_ITEMS_AT,n,1}); r.push_back({RESERVE,n,0}); r.push_back({SET_CAPACITY,n,0}); r.push_back({GROW,n,0}); }
		for (int i : {5,8,20,31}) { r.push_back({REMOVE_AT,i,0}); r.push_back({APPEND_AT,i,0}); r.push_back({FILL,i,i + 3}); r.push_back({RESIZE,i,0}); r.push_back({APPEND_ITEMS_AT,i,i}); r.push_back({APPEND_ARRAY,i,0}); }
	}
	return r;
}

template<class T> struct Val { static T make(int v) { return (T)v; } static int get(T const& t) { return (int)t; } };
struct Big { int a; char pad[20]; int b; };
template<> struct Val<Big> { static Big make(int v) { Big b; memset(&b, 0, sizeof b); b.a = v; b.b = v ^ 0x55AA; return b; } static int get(Big const& t) { return t.b == (t.a ^ 0x55AA) ? t.a : -777; } };

#undef array_init
#undef array_init_reserve
#undef array_append_array
#undef array_append
#undef array_append_items
#undef array_append_at
#undef array_append_at_items
#undef array_back
#undef array_clear
#undef array_fill
#undef array_free
#undef array_num

template<class T> static bool apply(Array<T>& a, V& m, Step s, int& fresh, std::string& why, bool member)
{
	auto mk = [&](int n) { std::vector<T> v; for (int i = 0; i < n; i++) v.push_back(Val<T>::make(fresh + i)); return v; };
	bool r = true, want = true;
	switch (s.op) {
	case APPEND: { T v = Val<T>::make(fresh); r = member ? a.append(v) : array_append<T>(&a, v); m.push_back(fresh); fresh++; break; }
	case POP: if (m.empty()) return true; if (member) a.pop(); else array_pop<T>(a); m.pop_back(); break;
	case REMOVE_AT: if ((size_t)s.a >= m.size()) return true; if (member) a.remove_at(s.a); else array_remove_at<T>(a, s.a); m.erase(m.begin() + s.a); break;
	case APPEND_AT: { T v = Val<T>::make(fresh); r = member ? a.append_at(v, (usize)s.a) : array_append_at<T>(&a, v, s.a); size_t i = std::min((size_t)s.a, m.size()); m.insert(m.begin() + i, fresh); fresh++; break; }
	case APPEND_ITEMS: { auto v = mk(s.a); T* p = (T*)malloc(sizeof(T) * s.a); memcpy((void*)p, v.data(), sizeof(T) * s.a);
		r = member ? a.append(p, (usize)s.a) : array_append_items<T>(&a, p, s.a); free(p); for (int i = 0; i < s.a; i++) m.push_back(fresh++); break; }
	case APPEND_ARRAY: { Array<T> o = array_init<T>(mc::temp()); for (int i = 0; i < s.a; i++) array_append<T>(&o, Val<T>::make(fresh + i));
		r = member ? a.append(o) : array_append_array<T>(&a, o);
		for (int i = 0; i < s.a; i++) if (Val<T>::get(o[i]) != Val<T>::get(Val<T>::make(fresh + i))) { why = "source array changed"; return false; }
		array_free<T>(&o); for (int i = 0; i < s.a; i++) m.push_back(fresh++); break; }
	case APPEND_ITEMS_AT: { auto v = mk(s.a); T* p = (T*)malloc(sizeof(T) * s.a); memcpy((void*)p, v.data(), sizeof(T) * s.a);
		r = member ? a.append_at(p, (usize)s.a, (usize)s.b) : array_append_items_at<T>(&a, p, s.a, s.b); free(p);
		size_t i = std::min((size_t)s.b, m.size()); V ins; for (int k = 0; k < s.a; k++) ins.push_back(fresh++); m.insert(m.begin() + i, ins.begin(), ins.end()); break; }
	case CLEAR: if (member) a.clear(); else array_clear<T>(a); m.clear(); break;
	case FILL: { T v = Val<T>::make(fresh); r = member ? a.fill(s.a, s.b, v) : array_fill<T>(a, s.a, s.b, v); want = (size_t)s.b <= m.size();
		if (want) for (int i = s.a; i < s.b; i++) m[i] = fresh; fresh++; break; }
	case RESIZE: { r = member ? a.resize(s.a) : array_resize<T>(&a, s.a); size_t old = m.size(); m.resize(s.a);
		if (!r) break; for (size_t i = old; i < m.size(); i++) { a[i] = Val<T>::make(fresh); m[i] = fresh++; } break; }   // new slots are unspecified: write them
	case RESERVE: { r = member ? a.reserve(s.a) : array_reserve<T>(&a, s.a); if (a.get_header()->Capacity < (usize)s.a) { why = "capacity below the reserve"; return false; } break; }
	case SET_CAPACITY: { r = member ? a.set_capacity(s.a) : array_set_capacity<T>(&a, s.a); if (m.size() > (size_t)s.a) m.resize(s.a); break; }
	case GROW: { usize before = a.get_header()->Capacity; r = member ? a.grow(s.a) : array_grow<T>(&a, s.a); if (a.get_header()->Capacity < (usize)s.a || a.get_header()->Capacity <= before) { why = "grow did not grow"; return false; } break; }
	case BACK: { T* b = member ? a.back() : array_back<T>(a); if (m.empty() ? b != nullptr : (!b || Val<T>::get(*b) != Val<T>::get(Val<T>::make(m.back())))) { why = "back() is not the last element"; return false; } break; }
	}
	if (r != want) { why = mc::sfmt("returned %d, expected %d", r, want); return false; }
	return true;
}
template<class T> static bool same(Array<T>& a, V const& m, std::string& why, bool member)
{
	usize n = member ? a.num() : array_num<T>(a);
	if (n != m.size()) { why = mc::sfmt("holds %zu elements, expected %zu", (size_t)n, m.size()); return false; }
	if (a.get_header()->Capacity < n) { why = "more elements than capacity"; return false; }
	for (size_t i = 0; i < n; i++) if (Val<T>::get(a[i]) != Val<T>::get(Val<T>::make(m[i]))) { why = mc::sfmt("element %zu is %d, expected %d", i, Val<T>::get(a[i]), m[i]); return false; }
	// iteration visits the same elements
	size_t i = 0; for (T* it = a.begin(); it != a.end(); ++it, ++i) if (i >= m.size() || Val<T>::get(*it) != Val<T>::get(Val<T>::make(m[i]))) { why = "iteration differs"; return false; }
	return true;
}

template<class T> static void run_type(const char* tname, int depth, bool member, int reserve)
{
	auto A = alphabet(false);
	std::vector<int> idx(depth, 0);
	// a case = a prefix of two operations; everything below it is enumerated depth-first on replayed objects
	int n = (int)A.size();
	for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) {
		if (!mc::begin(mc::sfmt("Array<%s>%s reserve=%d: %s(%d,%d); %s(%d,%d); then every continuation to depth %d", tname, member ? " members" : "", reserve, names[A[p].op], A[p].a, A[p].b, names[A[q].op], A[q].a, A[q].b, depth))) continue;
		std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& seq) {
			// replay the whole sequence on a fresh object
			mc::t_free_all();
			Array<T> a = reserve ? array_init_reserve<T>(mc::temp(), reserve) : array_init<T>(mc::temp());
			V m; int fresh = 1; std::string why; bool ok = true;
			for (size_t i = 0; i < seq.size() && ok; i++) {
				ok = apply<T>(a, m, A[seq[i]], fresh, why, member) && same<T>(a, m, why, member);
				mc::transition();
			}
			if (ok) {
				mc::u64 h = mc::mix(mc::hash_bytes(m.data(), m.size() * sizeof(int)), a.get_header()->Capacity); mc::state(h); mc::outcome(mc::mix(m.size(), a.get_header()->Capacity)); mc::trace_ok();
				array_free<T>(&a);
				if (a.Data || mc::t_live != 0) { ok = false; why = mc::sfmt("%ld blocks live after free", mc::t_live); }
			}
			if (!ok) { std::string s; for (int i : seq) s += mc::sfmt("%s(%d,%d); ", names[A[i].op], A[i].a, A[i].b);
				mc::violation(mc::sfmt("Array<%s>%s reserve=%d: %s", tname, member ? " members" : "", reserve, s.c_str()), why); return; }
			if ((int)seq.size() < depth) for (int i = 0; i < n; i++) { seq.push_back(i); rec(seq); seq.pop_back(); if (mc::stopped()) return; }
		};
		std::vector<int> seq = {p, q}; rec(seq);
	}
}

// every longer history of plain appends (each growth step of the capacity), followed by every pair of operations
template<class T> static void run_long(const char* tname, int maxn)
{
	auto A = alphabet(true); int n = (int)A.size();
	for (int fill = 0; fill <= maxn; fill++) for (int shrink = 0; shrink < 2; shrink++) {
		if (!mc::begin(mc::sfmt("Array<%s> of %d appends%s, then every pair of operations", tname, fill, shrink ? " and half of them popped" : ""))) continue;
		for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) {
			mc::t_free_all();
			Array<T> a = array_init<T>(mc::temp()); V m; int fresh = 1; std::string why; bool ok = true;
			for (int i = 0; i < fill && ok; i++) ok = apply<T>(a, m, {APPEND,0,0}, fresh, why, false);
			if (shrink) for (int i = 0; i < fill / 2 && ok; i++) ok = apply<T>(a, m, {POP,0,0}, fresh, why, false);
			ok = ok && same<T>(a, m, why, false);
			ok = ok && apply<T>(a, m, A[p], fresh, why, false) && same<T>(a, m, why, false);
			ok = ok && apply<T>(a, m, A[q], fresh, why, true) && same<T>(a, m, why, true);
			mc::transition(fill + 2); mc::trace_ok();
			mc::state(mc::mix(mc::hash_bytes(m.data(), m.size() * sizeof(int)), a.Data ? a.get_header()->Capacity : 0));
			if (!ok) mc::violation(mc::sfmt("Array<%s> of %d appends%s: %s(%d,%d); %s(%d,%d)", tname, fill, shrink ? ", half popped" : "", names[A[p].op], A[p].a, A[p].b, names[A[q].op], A[q].a, A[q].b), why);
		}
	}
}

// allocation failure: a failed grow reports false and leaves the content as it was
static void failures(int depth)
{
	auto A = alphabet(true); int n = (int)A.size();
	for (int fill = 0; fill <= 9; fill++) for (int q = 0; q < n; q++) for (int fail = 0; fail < 2; fail++) {
		if (!mc::begin(mc::sfmt("Array<int> with %d elements: %s(%d,%d) with allocation %d failing", fill, names[A[q].op], A[q].a, A[q].b, fail))) continue;
		if (A[q].op == APPEND_ARRAY) continue;
		mc::t_free_all(); mc::t_fail_at = -1;
		Array<int> a = array_init_reserve<int>(mc::temp(), 8); V m; int fresh = 1; std::string why;
		for (int i = 0; i < fill; i++) { array_append<int>(&a, fresh); m.push_back(fresh++); }
		V before = m; mc::t_total = 0; mc::t_fail_at = fail;
		int f0 = fresh; int* base = a.Data;
		bool ok = true; bool ret = true;
		switch (A[q].op) {
			case APPEND: ret = array_append<int>(&a, f0); break;
			case APPEND_AT: ret = array_append_at<int>(&a, f0, A[q].a); break;
			case APPEND_ITEMS: { std::vector<int> v(A[q].a, f0); ret = array_append_items<int>(&a, v.data(), A[q].a); break; }
			case APPEND_ITEMS_AT: { std::vector<int> v(A[q].a, f0); ret = array_append_items_at<int>(&a, v.data(), A[q].a, A[q].b); break; }
			case RESIZE: ret = array_resize<int>(&a, A[q].a); break;
			case RESERVE: ret = array_reserve<int>(&a, A[q].a); break;
			case SET_CAPACITY: ret = array_set_capacity<int>(&a, A[q].a); break;
			case GROW: ret = array_grow<int>(&a, A[q].a); break;
			default: mc::t_fail_at = -1; continue;
		}
		bool hit = mc::t_total > fail; mc::t_fail_at = -1; mc::transition();
		if (hit && ret) { ok = false; why = "reported success although the allocation failed"; }
		if (ok && hit && !same<int>(a, before, why, false)) ok = false;
		if (ok && !hit && !ret) { ok = false; why = "reported failure although no allocation failed"; }
		mc::trace_ok();
		if (!ok) mc::violation(mc::cur_desc, why);
	}
	mc::t_fail_at = -1;
}

void explore(bool thorough)
{
	int d = thorough ? 6 : 5;
	run_type<int>("int", d, false, 0);
	run_type<int>("int", d - 1, true, 0);
	run_type<int>("int", d - 1, false, 1);
	run_type<Big>("Big", d - 1, false, 2);
	run_type<char>("char", d - 1, true, 3);
	run_long<int>("int", thorough ? 140 : 70);
	run_long<char>("char", thorough ? 140 : 30);
	run_long<Big>("Big", thorough ? 140 : 30);
	failures(1);
}
