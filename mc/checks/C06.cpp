// C06: number/text conversions, character classes, C-string primitives and checksums over whole bounded domains.
#include "mc.hpp"
#include <math.h>
using namespace gen;
const char* mc::PROPERTY = "C06";
typedef std::string T;
static void bad(T const& k, T const& d) { mc::violation(k, d); }
static std::vector<T> words(const char* al, int maxlen) { std::vector<T> all = {""}; size_t b = 0; for (int l = 1; l <= maxlen; l++) { size_t e = all.size(); for (size_t i = b; i < e; i++) for (const char* c = al; *c; c++) all.push_back(all[i] + *c); b = e; } return all; }
#undef swap

static void chars()
{
	for (int i = 0; i < 256; i++) {
		if (!mc::begin(mc::sfmt("character %d", i))) continue;
		char c = (char)i; bool asc = i < 128; mc::transition(9); mc::trace_ok(); mc::state(i);
		bool dig = i >= '0' && i <= '9', al = asc && ((i | 32) >= 'a' && (i | 32) <= 'z'), hex = dig || (asc && (i | 32) >= 'a' && (i | 32) <= 'f'), sp = i == ' ' || (i >= 9 && i <= 13);
		auto ck = [&](bool g, bool w, const char* f) { if (g != w) bad(mc::sfmt("%s(%d)", f, i), mc::sfmt("%d, expected %d", g, w)); };
		ck(char_is_digit(c), dig, "char_is_digit"); ck(char_is_alpha(c), al, "char_is_alpha"); ck(char_is_alphanumeric(c), al || dig, "char_is_alphanumeric"); ck(char_is_hex_digit(c), hex, "char_is_hex_digit"); ck(char_is_space(c), sp, "char_is_space");
		char lo = (asc && i >= 'A' && i <= 'Z') ? i + 32 : c, up = (asc && i >= 'a' && i <= 'z') ? i - 32 : c;
		if (char_to_lower(c) != lo) bad(mc::sfmt("char_to_lower(%d)", i), "wrong"); if (char_to_upper(c) != up) bad(mc::sfmt("char_to_upper(%d)", i), "wrong");
		int hv = dig ? i - '0' : hex ? (i | 32) - 'a' + 10 : -1; if (hex_digit_to_int(c) != hv) bad(mc::sfmt("hex_digit_to_int(%d)", i), mc::sfmt("%d, expected %d", hex_digit_to_int(c), hv));
		if (dig && digit_to_int(c) != i - '0') bad(mc::sfmt("digit_to_int(%d)", i), "wrong");
	}
}
static void ints(bool thorough)
{
	// every text up to the bound over an alphabet that mixes digits, signs, prefixes and junk
	for (auto& w : words("019aFx- g", thorough ? 6 : 5)) {
		if (!mc::begin("integer scan of '" + w + "'")) continue;
		mc::ExactZ z(w);
		for (int base : {10, 16, 0}) {
			int b = base; if (!b) b = w.size() > 2 && w.compare(0, 2, "0x") == 0 ? 16 : 10;
			size_t p = 0; bool neg = false; if (p < w.size() && w[p] == '-') { neg = true; p++; } if (b == 16 && w.compare(p, 2, "0x") == 0) p += 2;
			long long v = 0; while (p < w.size()) { int c = w[p], d = c >= '0' && c <= '9' ? c - '0' : b == 16 && isxdigit(c) ? (c | 32) - 'a' + 10 : -1; if (d < 0) break; v = v * b + d; p++; }
			if (neg) v = -v;
			char* e = nullptr; s64 g = c_str_to_i64(z.p, &e, base); mc::transition();
			if (g != v || e != z.p + p) bad(mc::sfmt("c_str_to_i64('%s', base %d)", w.c_str(), base), mc::sfmt("%lld at %ld, expected %lld at %zu", (long long)g, (long)(e - z.p), v, p));
		}
		mc::state(mc::hash_str(w)); mc::trace_ok();
	}
	std::vector<long long> vs; for (long long i = -2000; i <= 2000; i++) vs.push_back(i); for (int k = 0; k < 63; k++) for (int d = -2; d <= 2; d++) { vs.push_back((1ll << k) + d); vs.push_back(-(1ll << k) + d); }
	vs.push_back(9223372036854775807ll); vs.push_back(-9223372036854775807ll); long long p10 = 1; for (int k = 0; k < 18; k++, p10 *= 10) for (int d = -1; d <= 1; d++) { vs.push_back(p10 + d); vs.push_back(-p10 + d); }
	for (long long v : vs) {
		if (!mc::begin(mc::sfmt("number %lld to text and back", v))) continue;
		for (int b : {2, 3, 8, 10, 16, 36, 64}) {
			static const char dg[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz@$";
			auto ref = [&](unsigned long long u, bool neg) { T s; do { s.insert(s.begin(), dg[u % b]); u /= b; } while (u); return (neg ? "-" : "") + s; };
			T w = ref(v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, v < 0), wu = ref((unsigned long long)v, false);
			char* o = (char*)malloc(w.size() + 1); i64_to_str(v, o, b); if (w != o) bad(mc::sfmt("i64_to_str(%lld, %d)", v, b), T(o) + ", expected " + w);
			if ((b == 10 || b == 16) && c_str_to_i64(o, nullptr, b) != v) bad(mc::sfmt("round trip of %lld in base %d", v, b), "differs"); free(o);
			o = (char*)malloc(wu.size() + 1); u64_to_str((u64)v, o, b); if (wu != o) bad(mc::sfmt("u64_to_str(%llu, %d)", (unsigned long long)v, b), T(o) + ", expected " + wu); free(o); mc::transition(2);
		}
		mc::trace_ok();
	}
}
static void floats(bool thorough)
{
	for (auto& w : words("09.-e5", thorough ? 7 : 6)) {
		// the grammar the scanner states: [sign] digits [. digits] [e [sign] digits]
		size_t p = 0; if (p < w.size() && (w[p] == '-')) p++; size_t d0 = p; while (p < w.size() && isdigit(w[p])) p++; if (p == d0) { mc::skip_case(); continue; }
		if (p < w.size() && w[p] == '.') { p++; while (p < w.size() && isdigit(w[p])) p++; }
		if (p < w.size() && w[p] == 'e') { size_t q = p + 1; if (q < w.size() && w[q] == '-') q++; size_t e0 = q; while (q < w.size() && isdigit(w[q])) q++; if (q == e0) { mc::skip_case(); continue; } if (q - e0 > 2) { mc::skip_case(); continue; } p = q; }
		if (!mc::begin("float scan of '" + w + "'")) continue;
		mc::ExactZ z(w); char* e; f64 g = c_str_to_f64(z.p, &e); char* re; double want = strtod(T(w, 0, p).c_str(), &re); mc::transition(); mc::trace_ok(); mc::state(mc::hash_str(w, 5));
		double err = fabs(g - want), tol = fabs(want) * 1e-13 ; if (err > tol || e != z.p + p) bad("c_str_to_f64('" + w + "')", mc::sfmt("%.17g at %ld, expected %.17g at %zu", g, (long)(e - z.p), want, p));
	}
	if (mc::begin("float scan with leading space and plus")) for (const char* s : {" 1.5", "+2.25", "\t-3e2", "  +0.125x", "1E+3", "2e+1"}) { char* e; f64 g = c_str_to_f64(s, &e); char* re; double w = strtod(s, &re); mc::transition(); if (g != w || e != re) bad(T("c_str_to_f64('") + s + "')", mc::sfmt("%g", g)); }
}
static int sgn(long x) { return (x > 0) - (x < 0); }
static void cstr(bool thorough)
{
	auto ws = words("abB", thorough ? 5 : 4);
	for (auto& x : ws) {
		if (!mc::begin("C-string primitives on '" + x + "'")) continue;
		mc::state(mc::hash_str(x, 3)); mc::trace_ok();
		for (auto& y : ws) {
			mc::ExactZ a(x), b(y); mc::transition(2);
			if (sgn(c_str_compare(a.p, b.p)) != sgn(x.compare(y))) bad("c_str_compare('" + x + "','" + y + "')", mc::sfmt("%d", c_str_compare(a.p, b.p)));
			for (int n = 0; n <= 6; n++) { int g = sgn(c_str_compare_len(a.p, b.p, n)), w = sgn(x.substr(0, n).compare(y.substr(0, n))); if (g != w) bad(mc::sfmt("c_str_compare_len('%s','%s',%d)", x.c_str(), y.c_str(), n), mc::sfmt("%d, expected %d", g, w));
				if (n <= (int)std::min(x.size(), y.size())) { mc::Exact ea(x.substr(0, n)), eb(y.substr(0, n)); if (sgn(c_str_compare_len(ea.p, eb.p, n)) != w) bad("c_str_compare_len unterminated", x + "," + y); } }
			size_t any = std::min(x.find_first_of(y), x.size()); if (c_str_skip_any(a.p, b.p) != a.p + any) bad("c_str_skip_any('" + x + "','" + y + "')", "wrong position");
		}
		mc::ExactZ a(x); if (c_str_len(a.p) != (ssize)x.size()) bad("c_str_len('" + x + "')", "wrong");
		for (int n = 0; n <= 7; n++) {
			if (n <= (int)x.size() + 1 && c_str_len_capped(a.p, n) != (ssize)strnlen(x.c_str(), n)) bad(mc::sfmt("c_str_len_capped('%s',%d)", x.c_str(), n), mc::sfmt("%ld", (long)c_str_len_capped(a.p, n)));
			T pad = x.substr(0, n); pad.resize(n, 0); char* d = (char*)malloc(n ? n : 1); memset(d, 'Z', n); char* r = c_str_copy(d, a.p, n); if (r != d || memcmp(d, pad.data(), n)) bad(mc::sfmt("c_str_copy('%s',%d)", x.c_str(), n), "differs");
			memset(d, 'Z', n); ssize g = c_str_copy_nulpad(d, a.p, n); if (g != (ssize)std::min((size_t)n, x.size()) || memcmp(d, pad.data(), n)) bad(mc::sfmt("c_str_copy_nulpad('%s',%d)", x.c_str(), n), mc::sfmt("returned %ld", (long)g)); free(d); mc::transition(3);
		}
		{ mc::ExactZ r(x); if (x.size()) { T w(x.rbegin(), x.rend()); if (c_str_reverse(r.p) != r.p || w != r.p) bad("c_str_reverse('" + x + "')", r.p); } }
		{ mc::ExactZ r(x); c_str_to_lower(r.p); T w = x; for (char& c : w) c = tolower(c); if (w != r.p) bad("c_str_to_lower('" + x + "')", r.p); }
		{ mc::ExactZ r(x); c_str_to_upper(r.p); T w = x; for (char& c : w) c = toupper(c); if (w != r.p) bad("c_str_to_upper('" + x + "')", r.p); }
		for (char c : {'a', 'b', 'B', 'z'}) { size_t i = std::min(x.find(c), x.size()); if (c_str_skip(a.p, c) != a.p + i) bad(mc::sfmt("c_str_skip('%s',%c)", x.c_str(), c), "wrong"); const char* f = char_first_occurence(a.p, c); if (f != (x.find(c) == T::npos ? nullptr : a.p + x.find(c))) bad(mc::sfmt("char_first_occurence('%s',%c)", x.c_str(), c), "wrong"); mc::transition(2); }
	}
	for (auto& x : words(" \n\ta", 5)) { if (!mc::begin("c_str_trim('" + x + "')")) continue; mc::ExactZ a(x); mc::transition(2); mc::trace_ok();
		size_t i = std::min(x.find_first_not_of(" \n\t"), x.size()), j = std::min(x.find_first_not_of(" \t"), x.size());
		if (c_str_trim(a.p, false) != a.p + i || c_str_trim(a.p, true) != a.p + j) bad("c_str_trim('" + x + "')", "wrong position"); }
	if (mc::begin("null strings")) { if (c_str_len(nullptr)) bad("c_str_len(null)", "not 0"); c_str_to_lower(nullptr); c_str_to_upper(nullptr); }
}
static void crcs(bool thorough)
{
	std::vector<T> all = {""}; for (int i = 0; i < 256; i++) all.push_back(T(1, (char)i)); for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j += thorough ? 1 : 5) all.push_back(T(1, (char)i) + (char)j);
	for (auto& w : words("aB\x80", 6)) all.push_back(w); for (int n = 1; n < 200; n++) { T t; for (int i = 0; i < n; i++) t += (char)(i * 37 + n); all.push_back(t); }
	for (size_t k = 0; k < all.size(); k += 64) { if (!mc::begin(mc::sfmt("checksums of block %zu", k / 64))) continue;
		for (size_t q = k; q < all.size() && q < k + 64; q++) { T const& x = all[q]; mc::Exact e(x); unsigned c = ~0u; unsigned long long d = 0; for (unsigned char ch : x) { c ^= ch; for (int b = 0; b < 8; b++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; }
			c = ~c; mc::transition(2); if (crc32(e.p, x.size()) != c) bad("crc32 of " + mc::esc(x), "differs");
			d = 0; for (unsigned char ch : x) { d ^= ch; for (int b = 0; b < 8; b++) d = d & 1 ? (d >> 1) ^ 0x95AC9329AC4BC9B5ull : d >> 1; } if (crc64(e.p, x.size()) != d) bad("crc64 of " + mc::esc(x), mc::sfmt("%llx, expected %llx", (unsigned long long)crc64(e.p, x.size()), d)); } mc::trace_ok(); }
}
void explore(bool thorough) { chars(); ints(thorough); floats(thorough); cstr(thorough); crcs(thorough); }
