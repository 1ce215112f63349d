// A02: lists of entries, parameters and specifiers as sequences: every history of operations up to the depth bound on the real
// lists against vectors of names, every list involved compared after each operation.
#include "kinds.hpp"
using namespace gen; using namespace kinds;
const char* mc::PROPERTY = "A02";
typedef std::vector<S> Seq;
static S text(Code c) { return mc::SB_(code_to_strbuilder(c)); }
static S join(Seq const& q, const char* sep) { S r; for (auto& x : q) { if (!r.empty()) r += sep; r += x; } return r; }
static S squeeze(S const& s) { S r; for (char c : s) if (!isspace((unsigned char)c)) r += c; return r; }
static Str hold(S const& s) { return cache_str(Str{ s.data(), (ssize)s.size() }); }
static void bad(S const& what) { mc::violation(mc::cur_desc, what); }
// every sequence of n operations below nops (a prefix is a history of its own)
static void histories(S const& what, int nops, int depth, std::function<const char*(int)> name, std::function<void(std::vector<int> const&)> run)
{
	std::vector<int> h; std::function<void()> rec = [&] {
		if (mc::stopped()) return;
		if (!h.empty()) { S key = what + ":"; for (int o : h) { key += " "; key += name(o); } if (mc::begin(key)) { gram::up(); if (mc::fatal([&] { run(h); })) bad("a fatal failure: " + w32::std_err.substr(0, 200)); gram::down(); w32::std_err.clear(); } }
		if ((int)h.size() == depth) return;
		for (int o = 0; o < nops; o++) { h.push_back(o); rec(); h.pop_back(); } };
	rec();
}
// --- specifiers
static bool check(CodeSpecifiers c, std::vector<Specifier> const& m, std::vector<Specifier> const& all)
{
	if (c->NumEntries != (s32)m.size()) { bad(mc::sfmt("%d entries instead of %d", (int)c->NumEntries, (int)m.size())); return false; }
	std::vector<Specifier> it; for (Specifier* s = begin_CodeSpecifiers(c); s != end_CodeSpecifiers(c); s = next_CodeSpecifiers(c, s)) it.push_back(*s);
	std::vector<Specifier> rf; for (Specifier s : c) rf.push_back(s);
	if (it != m || rf != m) { bad("other specifiers or another order: " + text(K(c))); return false; }
	for (Specifier s : all) { s32 at = -1; for (size_t i = m.size(); i-- > 0;) if (m[i] == s) at = (s32)i;
		if (specifiers_index_of(c, s) != at || c.index_of(s) != at) { bad("index of " + mc::S_(spec_to_str(s)) + mc::sfmt(" is %d instead of %d", specifiers_index_of(c, s), at)); return false; }
		if (specifiers_has(c, s) != (at >= 0) || c.has(s) != (at >= 0)) { bad("has " + mc::S_(spec_to_str(s)) + " is wrong"); return false; } }
	S w; for (Specifier s : m) w += mc::S_(spec_to_str(s)) + " "; if (squeeze(text(K(c))) != squeeze(w)) { bad("written as " + text(K(c)) + " instead of " + w); return false; }
	mc::trace_ok(); mc::state(mc::hash_str(w)); return true;
}
static void specifiers(bool th)
{
	static const std::vector<Specifier> A = { Spec_Static, Spec_Inline, Spec_Const };
	static const std::vector<Specifier> ALL = { Spec_Static, Spec_Inline, Spec_Const, Spec_Virtual, Spec_Constexpr };
	std::vector<std::pair<const char*, std::vector<Specifier>>> starts;
	auto fill = [](int n) { std::vector<Specifier> v; for (int i = 0; i < n; i++) v.push_back(i % 2 ? Spec_Constexpr : Spec_Virtual); return v; };
	starts.push_back({ "one", { Spec_Static } }); starts.push_back({ "three", { Spec_Static, Spec_Inline, Spec_Const } }); starts.push_back({ "repeated", { Spec_Inline, Spec_Static, Spec_Inline } });
	starts.push_back({ "two below the capacity", fill(AST_ArrSpecs_Cap - 2) }); starts.push_back({ "one below the capacity", fill(AST_ArrSpecs_Cap - 1) }); starts.push_back({ "at the capacity", fill(AST_ArrSpecs_Cap) });
	{ std::vector<Specifier> v = fill(AST_ArrSpecs_Cap); v.back() = Spec_Inline; starts.push_back({ "at the capacity, another last", v }); }
	auto name = [](int o) -> const char* { static const char* N[] = { "+static", "+inline", "+const", "-static", "-inline", "-const", "-virtual" }; return N[o]; };
	for (auto& st : starts) for (int form = 0; form < 2; form++)
		histories(S("specifiers, ") + st.first + (form ? " (members)" : ""), 7, th ? 5 : 4, name, [&](std::vector<int> const& h) {
			std::vector<Specifier> m = st.second; CodeSpecifiers c = def_specifiers_arr((s32)m.size(), m.data());
			for (int o : h) {
				mc::transition();
				if (o < 3) {
					bool r = false, full = m.size() == (size_t)AST_ArrSpecs_Cap;
					bool t = mc::fatal([&] { r = form ? c.append(A[o]) : specifiers_append(c, A[o]); });
					if (full ? !(t || !r) : (t || !r)) { bad(full ? "appended over the capacity" : "append refused"); return; }
					if (!full) m.push_back(A[o]);
				} else {
					Specifier s = o == 6 ? Spec_Virtual : A[o - 3]; s32 at = -1; for (size_t i = m.size(); i-- > 0;) if (m[i] == s) at = (s32)i;
					s32 r = -2; if (mc::fatal([&] { r = form ? c.remove(s) : specifiers_remove(c, s); })) { bad("remove failed"); return; }
					if (r != at) { bad(mc::sfmt("remove returned %d instead of %d", (int)r, (int)at)); return; }
					if (at >= 0) m.erase(m.begin() + at);
				}
				if (!check(c, m, ALL)) return;
			}
		});
}
// --- parameters and the parameters of a define
template <class C> struct Ops;
template <> struct Ops<CodeParams> {
	static CodeParams one(S const& n) { return def_param(def_type(T("int")), hold(n)); }
	static void append(CodeParams a, CodeParams b, int form) { if (form) a.append(b); else params_append(a, b); }
	static CodeParams get(CodeParams a, int i, int form) { return form ? a.get(i) : params_get(a, i); }
	static bool has(CodeParams a, int form) { return form ? a.has_entries() : params_has_entries(a); }
	static CodeParams begin(CodeParams a) { return begin_CodeParams(a); } static CodeParams end(CodeParams a) { return end_CodeParams(a); } static CodeParams next(CodeParams a, CodeParams i) { return next_CodeParams(a, i); }
	static CodeParams arr(std::vector<CodeParams> v) { return def_params_arr((s32)v.size(), v.data()); }
	static CodeParams va(CodeParams a, CodeParams b) { return def_params(2, a, b); }
	static S written(Seq const& m) { S r; for (auto& x : m) r += S(r.empty() ? "" : ",") + "int" + x; return r; }
};
template <> struct Ops<CodeDefineParams> {
	static CodeDefineParams one(S const& n) { CodeDefine d = parse_define(hold("#define MD_" + n + "(" + n + ") x\n")); return d->Params; }
	static void append(CodeDefineParams a, CodeDefineParams b, int form) { if (form) a.append(b); else define_params_append(a, b); }
	static CodeDefineParams get(CodeDefineParams a, int i, int form) { return form ? a.get(i) : define_params_get(a, i); }
	static bool has(CodeDefineParams a, int form) { return form ? a.has_entries() : define_params_has_entries(a); }
	static CodeDefineParams begin(CodeDefineParams a) { return begin_CodeDefineParams(a); } static CodeDefineParams end(CodeDefineParams a) { return end_CodeDefineParams(a); } static CodeDefineParams next(CodeDefineParams a, CodeDefineParams i) { return next_CodeDefineParams(a, i); }
	static CodeDefineParams arr(std::vector<CodeDefineParams> v) { return def_define_params_arr((s32)v.size(), v.data()); }
	static CodeDefineParams va(CodeDefineParams a, CodeDefineParams b) { return def_define_params(2, a, b); }
	static S written(Seq const& m) { return join(m, ","); }
};
template <class C> static bool check_list(const char* which, C c, Seq const& m, int form)
{
	typedef Ops<C> O; S w = S(which) + ": ";
	if (c->NumEntries != (s32)m.size()) { bad(w + mc::sfmt("%d entries instead of %d", (int)c->NumEntries, (int)m.size())); return false; }
	if (O::has(c, form) != !m.empty()) { bad(w + "has_entries is wrong"); return false; }
	Seq it; int guard = 0; for (C e = O::begin(c); !(e.ast == O::end(c).ast) && guard++ < 50; e = O::next(c, e)) it.push_back(mc::S_(e->Name));
	if (it != m) { bad(w + "iterated as " + join(it, ",") + " instead of " + join(m, ",")); return false; }
	it.clear(); guard = 0; for (C e : c) { if (guard++ > 50) break; it.push_back(mc::S_(e->Name)); } if (it != m) { bad(w + "range iterated as " + join(it, ",") + " instead of " + join(m, ",")); return false; }
	for (int i = 0; i < (int)m.size() + 2; i++) { C g = O::get(c, i, form); if (i < (int)m.size() ? (!g.ast || mc::S_(g->Name) != m[i]) : g.ast != nullptr) { bad(w + mc::sfmt("get(%d) is wrong", i)); return false; } }
	if (squeeze(text(K(c))) != squeeze(O::written(m))) { bad(w + "written as " + text(K(c)) + " instead of " + O::written(m)); return false; }
	mc::trace_ok(); mc::state(mc::hash_str(w + join(m, ","))); return true;
}
template <class C> static void params(const char* what, bool th)
{
	typedef Ops<C> O;
	static const char* N[] = { "A+new", "A+B", "A+B[1]", "A+B[last]", "A+again", "B+new", "B+A", "B+A[1]", "A=params(A,new)", "A=params(B,new)", "B=params(A,B)", "A=arr(new,B)", "A=arr(B,A,new)" };
	for (int form = 0; form < 2; form++) histories(S(what) + (form ? " (members)" : ""), 13, th ? 5 : 4, [](int o) { return N[o]; }, [&](std::vector<int> const& h) {
		int fresh = 0; auto nm = [&] { return S("p") + std::to_string(fresh++); };
		Seq a, b; C A, B; { S n = nm(); A = O::one(n); a = { n }; S x = nm(), y = nm(); B = O::one(x); O::append(B, O::one(y), form); b = { x, y }; }
		C old = { nullptr }; Seq oldm; S last; C lastc = { nullptr };
		for (int o : h) {
			mc::transition();
			if (a.size() + b.size() > 24) return;
			old = C{ nullptr };
			switch (o) {
			case 0: { S n = nm(); lastc = O::one(n); last = n; O::append(A, lastc, form); a.push_back(n); } break;
			case 1: O::append(A, B, form); a.insert(a.end(), b.begin(), b.end()); break;
			case 2: O::append(A, O::get(B, 1, form), form); a.push_back(b[1]); break;
			case 3: O::append(A, O::get(B, (int)b.size() - 1, form), form); a.push_back(b.back()); break;
			case 4: if (!lastc.ast) { S n = nm(); lastc = O::one(n); last = n; } O::append(A, lastc, form); a.push_back(last); break;
			case 5: { S n = nm(); O::append(B, O::one(n), form); b.push_back(n); } break;
			case 6: if (a.size() < 2) return; O::append(B, A, form); b.insert(b.end(), a.begin(), a.end()); break;
			case 7: if (a.size() < 2) return; O::append(B, O::get(A, 1, form), form); b.push_back(a[1]); break;
			case 8: { S n = nm(); old = A; oldm = a; A = O::va(A, O::one(n)); a.push_back(n); } break;
			case 9: { S n = nm(); old = B; oldm = b; A = O::va(B, O::one(n)); a = b; a.push_back(n); } break;
			case 10: old = A; oldm = a; if (a.size() < 2) return; { Seq t = a; t.insert(t.end(), b.begin(), b.end()); B = O::va(A, B); b = t; } break;
			case 11: { S n = nm(); A = O::arr({ O::one(n), B }); a = b; a.insert(a.begin(), n); } break;
			case 12: { if (a.size() < 2) return; S n = nm(); A = O::arr({ B, A, O::one(n) }); Seq t = b; t.insert(t.end(), a.begin(), a.end()); t.push_back(n); a = t; } break;
			}
			if (!check_list("A", A, a, form) || !check_list("B", B, b, form)) return;
			if (old.ast && !check_list("the list it was made from", old, oldm, form)) return;
		}
	});
}
// --- bodies
static bool check_body(const char* which, CodeBody c, Seq const& m)
{
	S w = S(which) + ": "; Code k = K(c);
	if (c->NumEntries != (s32)m.size()) { bad(w + mc::sfmt("%d entries instead of %d", (int)c->NumEntries, (int)m.size())); return false; }
	if (code_has_entries(k) != !m.empty()) { bad(w + "has_entries is wrong"); return false; }
	Seq it; int g = 0; if (!m.empty()) for (Code e = begin_CodeBody(c); e.ast != end_CodeBody(c).ast && g++ < 60; e = next_CodeBody(c, e)) { it.push_back(mc::S_(e->Name)); if (e->Parent.ast != k.ast) { bad(w + "an entry has another parent"); return false; } }
	if (it != m) { bad(w + "iterated as " + join(it, ",") + " instead of " + join(m, ",")); return false; }
	it.clear(); g = 0; if (!m.empty()) for (Code e : c) { if (g++ > 60) break; it.push_back(mc::S_(e->Name)); } if (it != m) { bad(w + "range iterated as " + join(it, ",") + " instead of " + join(m, ",")); return false; }
	it.clear(); g = 0; if (!m.empty()) for (Code e = c->Back; e.ast && g++ < 60; e = e->Prev) it.insert(it.begin(), mc::S_(e->Name)); if (it != m) { bad(w + "backwards as " + join(it, ",") + " instead of " + join(m, ",")); return false; }
	for (int i = 0; i < (int)m.size(); i++) { Code* e = code_entry(k, (u32)i); if (!e || !e->ast || mc::S_((*e)->Name) != m[i]) { bad(w + mc::sfmt("entry %d is wrong", i)); return false; } }
	{ Code* e = code_entry(k, (u32)m.size()); if (e && e->ast) { bad(w + "there is an entry past the last"); return false; } }
	S want; for (auto& x : m) want += "int" + x + ";"; if (squeeze(text(k)).find(want) == S::npos || (squeeze(text(k)).find(want) && c->Type == CT_Global_Body)) { bad(w + "written as " + text(k)); return false; }
	mc::trace_ok(); mc::state(mc::hash_str(w + join(m, ","))); return true;
}
static void bodies(bool th)
{
	static const char* N[] = { "A+new", "A+B", "A+B[0]", "A+B[last]", "A+A[0]", "A+again", "B+new", "B+A", "B+A[last]", "A=body(A,new)" };
	static const CodeType KIND[] = { CT_Global_Body, CT_Class_Body, CT_Namespace_Body, CT_Struct_Body, CT_Extern_Linkage_Body };
	for (CodeType kind : KIND) for (int form = 0; form < (kind == CT_Global_Body ? 2 : 1); form++) histories(S("body of kind ") + std::to_string(kind) + (form ? " (members)" : ""), 10, th ? 5 : 4, [](int o) { return N[o]; }, [&](std::vector<int> const& h) {
		int fresh = 0; auto nm = [&] { return S("v") + std::to_string(fresh++); }; auto one = [&](S const& n) { return K(def_variable(def_type(T("int")), hold(n))); };
		auto add = [&](CodeBody x, Code y) { if (form) x.append(y); else body_append(x, y); };
		CodeBody A = def_body(kind), B = def_body(kind); Seq a, b; { S n = nm(); add(A, one(n)); a.push_back(n); for (int i = 0; i < 2; i++) { S x = nm(); add(B, one(x)); b.push_back(x); } }
		Code lastc = { nullptr }; S last;
		for (int o : h) {
			mc::transition(); if (a.size() + b.size() > 30) return;
			switch (o) {
			case 0: { S n = nm(); lastc = one(n); last = n; add(A, lastc); a.push_back(n); } break;
			case 1: if (fresh & 1) add(A, K(B)); else body_append_body(A, B); a.insert(a.end(), b.begin(), b.end()); break;
			case 2: add(A, *code_entry(K(B), 0)); a.push_back(b[0]); break;
			case 3: add(A, B->Back); a.push_back(b.back()); break;
			case 4: add(A, A->Front); a.push_back(a[0]); break;
			case 5: if (!lastc.ast) { S n = nm(); lastc = one(n); last = n; } add(A, lastc); a.push_back(last); break;
			case 6: { S n = nm(); add(B, one(n)); b.push_back(n); } break;
			case 7: add(B, K(A)); b.insert(b.end(), a.begin(), a.end()); break;
			case 8: add(B, A->Back); b.push_back(a.back()); break;
			case 9: { if (kind != CT_Global_Body) return; S n = nm(); Code v[2] = { K(A), one(n) };
				CodeBody old = A; Seq om = a; A = def_global_body_arr(2, v);
				if (!A.ast || K(A) == Code_Invalid) { mc::count(0); return; } a.push_back(n); if (!check_body("the body it was made from", old, om)) return; } break;
			}
			if (!check_body("A", A, a) || !check_body("B", B, b)) return;
		}
	});
}
void explore(bool th) { mc::counter_names[0] = "rejected"; specifiers(th); params<CodeParams>("parameters", th); params<CodeDefineParams>("define parameters", th); bodies(th); }
