// C02: HashTable<T> against an insertion-ordered map, every operation sequence up to a depth, keys forced to collide.
#include "mc.hpp"
using namespace gen;
const char* mc::PROPERTY = "C02";
#undef hashtable_init
#undef hashtable_init_reserve
#undef hashtable_clear
#undef hashtable_destroy
#undef hashtable_get
#undef hashtable_grow
#undef hashtable_rehash
#undef hashtable_rehash_fast
#undef hashtable_remove
#undef hashtable_remove_entry
#undef hashtable_set
#undef hashtable_slot
#undef hashtable_map
#undef hashtable_map_mut

enum Op { SET, REMOVE, CLEAR, GROW, REHASH, REHASH_FAST, MAP_MUT, REMOVE_ENTRY, GET_WRITE };
static const char* names[] = { "set", "remove", "clear", "grow", "rehash", "rehash_fast", "map_mut", "remove_entry", "write through get" };
struct Step { int op; unsigned long long k; };
// 0,8,24,32 collide modulo 8; 0,18 modulo 18; also 2^40+8, a key above 32 bits colliding with 8 modulo 8
static const unsigned long long KEYS[] = { 0, 8, 1, 24, 9, 18, 0x10000000008ull, ~0ull };
enum { NK = 8 };

template<class V> struct Mk { static V of(int i) { return (V)i; } static int to(V const& v) { return (int)v; } };
struct Wide { char c; long long a; char d; int b; };
template<> struct Mk<Wide> { static Wide of(int i) { Wide w; memset(&w, 0, sizeof w); w.c = 'x'; w.a = i; w.d = 'y'; w.b = ~i; return w; } static int to(Wide const& w) { return w.c == 'x' && w.d == 'y' && w.b == ~(int)w.a ? (int)w.a : -999; } };

struct Model { std::vector<std::pair<unsigned long long,int>> e; 
	int* get(unsigned long long k) { for (auto& x : e) if (x.first == k) return &x.second; return nullptr; }
	void set(unsigned long long k, int v) { if (int* p = get(k)) *p = v; else e.push_back({k, v}); }
	void del(unsigned long long k) { for (size_t i = 0; i < e.size(); i++) if (e[i].first == k) { e.erase(e.begin() + i); return; } } };

static std::vector<std::pair<unsigned long long,int>>* g_seen;
template<class V> static void visit(gen::u64 k, V v) { g_seen->push_back({k, Mk<V>::to(v)}); }
template<class V> static void bump(gen::u64 k, V* v) { *v = Mk<V>::of(Mk<V>::to(*v) + 1000); }

static std::vector<unsigned long long> probe_extra;
template<class V> static bool same(HashTable<V>& t, Model& m, std::string& why, bool member)
{
	for (int i = 0; i < NK; i++) { V* p = member ? t.get(KEYS[i]) : hashtable_get<V>(t, KEYS[i]); int* q = m.get(KEYS[i]);
		if ((p != nullptr) != (q != nullptr)) { why = mc::sfmt("key %llx is %s", KEYS[i], p ? "found although it was never set or was removed" : "not found although it is set"); return false; }
		if (p && Mk<V>::to(*p) != *q) { why = mc::sfmt("key %llx gives %d, expected %d", KEYS[i], Mk<V>::to(*p), *q); return false; } }
	for (auto& x : m.e) { V* p = hashtable_get<V>(t, x.first); if (!p) { why = mc::sfmt("key %llx is not found", x.first); return false; } if (Mk<V>::to(*p) != x.second) { why = mc::sfmt("key %llx gives %d, expected %d", x.first, Mk<V>::to(*p), x.second); return false; } }
	std::vector<std::pair<unsigned long long,int>> seen; g_seen = &seen;
	if (member) t.map(&visit<V>); else hashtable_map<V>(t, &visit<V>);
	std::vector<std::pair<unsigned long long,int>> a = seen, b = m.e; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
	if (a != b) { why = mc::sfmt("map visits %zu entries that differ from the %zu set", a.size(), b.size()); return false; }
	return true;
}
template<class V> static void apply(HashTable<V>& t, Model& m, Step s, int& fresh, bool member)
{
	switch (s.op) {
	case SET: { V v = Mk<V>::of(fresh); if (member) t.set(s.k, v); else hashtable_set<V>(&t, s.k, v); m.set(s.k, fresh++); break; }
	case REMOVE: if (member) t.remove(s.k); else hashtable_remove<V>(t, s.k); m.del(s.k); break;
	case CLEAR: if (member) t.clear(); else hashtable_clear<V>(t); m.e.clear(); break;
	case GROW: if (member) t.grow(); else hashtable_grow<V>(&t); break;
	case REHASH: if (member) t.rehash((gen::ssize)s.k); else hashtable_rehash<V>(&t, (gen::ssize)s.k); break;
	case REHASH_FAST: if (member) t.rehash_fast(); else hashtable_rehash_fast<V>(t); break;
	case MAP_MUT: if (member) t.map_mut(&bump<V>); else hashtable_map_mut<V>(t, &bump<V>); for (auto& x : m.e) x.second += 1000; break;
	case REMOVE_ENTRY: if (s.k < m.e.size()) { auto key = t.Entries[s.k].Key; if (member) { t.remove_entry((gen::ssize)s.k); t.rehash_fast(); } else { hashtable_remove_entry<V>(t, (gen::ssize)s.k); hashtable_rehash_fast<V>(t); } m.del(key); } break;
	case GET_WRITE: { V* p = hashtable_get<V>(t, s.k); if (p && m.get(s.k)) { *p = Mk<V>::of(fresh); *m.get(s.k) = fresh++; } break; }
	}
}
static std::vector<Step> alphabet()
{
	std::vector<Step> r;
	for (int i = 0; i < NK; i++) r.push_back({SET, KEYS[i]});
	for (int i = 0; i < NK; i++) r.push_back({REMOVE, KEYS[i]});
	r.push_back({CLEAR,0}); r.push_back({GROW,0}); for (int n : {1,2,8,16}) r.push_back({REHASH,(unsigned long long)n}); r.push_back({REHASH_FAST,0}); r.push_back({MAP_MUT,0});
	r.push_back({REMOVE_ENTRY,0}); r.push_back({REMOVE_ENTRY,1}); r.push_back({GET_WRITE,8});
	return r;
}
template<class V> static void run(const char* tn, int depth, int reserve, bool member)
{
	auto A = alphabet(); int n = (int)A.size();
	for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) {
		if (!mc::begin(mc::sfmt("HashTable<%s>%s reserve=%d: %s(%llx); %s(%llx); then every continuation to depth %d", tn, member ? " members" : "", reserve, names[A[p].op], A[p].k, names[A[q].op], A[q].k, depth))) continue;
		std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& seq) {
			mc::t_free_all();
			HashTable<V> t = reserve ? hashtable_init_reserve<V>(mc::temp(), reserve) : hashtable_init<V>(mc::temp());
			Model m; int fresh = 1; std::string why; bool ok = true;
			for (size_t i = 0; i < seq.size(); i++) { apply<V>(t, m, A[seq[i]], fresh, member); mc::transition(); }
			ok = same<V>(t, m, why, member);      // every prefix is itself one of the enumerated sequences
			if (ok) {
				mc::u64 h = t.Hashes.get_header()->Num; for (auto& x : m.e) h = mc::mix(mc::mix(h, x.first), x.second); mc::state(h); mc::outcome(mc::mix(m.e.size(), t.Hashes.get_header()->Num)); mc::trace_ok();
				hashtable_destroy<V>(&t);
				if (mc::t_live != 0) { ok = false; why = mc::sfmt("%ld blocks live after destroy", mc::t_live); }
			}
			if (!ok) { std::string s; for (int i : seq) s += mc::sfmt("%s(%llx); ", names[A[i].op], A[i].k); mc::violation(mc::sfmt("HashTable<%s>%s reserve=%d: %s", tn, member ? " members" : "", reserve, s.c_str()), why); return; }
			if ((int)seq.size() < depth) for (int i = 0; i < n; i++) { seq.push_back(i); rec(seq); seq.pop_back(); if (mc::stopped()) return; }
		};
		std::vector<int> seq = {p, q}; rec(seq);
	}
}
// long histories: n keys of a stride (all colliding for small tables), then every pair of operations
template<class V> static void run_long(const char* tn, int maxn)
{
	auto A = alphabet(); int n = (int)A.size();
	for (int cnt = 0; cnt <= maxn; cnt++) for (unsigned long long stride : {1ull, 8ull, 18ull, 0x100000000ull}) {
		if (!mc::begin(mc::sfmt("HashTable<%s> with %d keys of stride %llx, then every pair of operations", tn, cnt, stride))) continue;
		for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) {
			mc::t_free_all();
			HashTable<V> t = hashtable_init<V>(mc::temp()); Model m; int fresh = 1; std::string why; bool ok = true;
			for (int i = 0; i < cnt; i++) apply<V>(t, m, {SET, (i + 2) * stride}, fresh, false);
			if (p == 0 && q == 0) ok = same<V>(t, m, why, false);
			apply<V>(t, m, A[p], fresh, true); apply<V>(t, m, A[q], fresh, false);
			ok = ok && same<V>(t, m, why, true);
			mc::transition(cnt + 2); mc::trace_ok();
			mc::u64 h = mc::mix(t.Hashes.get_header()->Num, stride); for (auto& x : m.e) h = mc::mix(mc::mix(h, x.first), x.second); mc::state(h);
			if (!ok) mc::violation(mc::sfmt("HashTable<%s> with %d keys of stride %llx: %s(%llx); %s(%llx)", tn, cnt, stride, names[A[p].op], A[p].k, names[A[q].op], A[q].k), why);
		}
	}
}
void explore(bool thorough)
{
	int d = thorough ? 5 : 4;
	run<int>("int", d, 0, false);
	run<int>("int", d, 1, false);
	run<Wide>("Wide", d - 1, 2, true);
	run_long<int>("int", thorough ? 150 : 60);
	run_long<Wide>("Wide", thorough ? 150 : 24);
}
