// C05: formatted printing: every conversion spec in the bounded space against the C library, at every buffer size.
#include "mc.hpp"
using namespace gen;
const char* mc::PROPERTY = "C05";
typedef std::string T;

static T cur;
// print `fmt` at every buffer size around the needed one, into exactly sized memory
template <class... A> static void check(T const& key, T const& want, char const* fmt, A... a)
{
	size_t need = want.size() + 1;
	std::vector<size_t> sizes; for (size_t n = need > 40 ? need - 12 : 1; n <= need + 3; n++) sizes.push_back(n); if (need > 40) for (size_t n : {1, 2, 3, 7, 20}) sizes.push_back(n); sizes.push_back(need + 100);
	for (size_t n : sizes) {
		char* b = (char*)malloc(n); memset(b, 'Z', n);
		ssize r = c_str_fmt(b, (ssize)n, fmt, a...);
		mc::transition();
		T why;
		if (n > need) {
			if (r != (ssize)need) why = mc::sfmt("returned %ld, expected %zu", (long)r, need);
			else if (memcmp(b, want.c_str(), need)) why = "printed '" + T(b, strnlen(b, n)) + "', expected '" + want + "'";
		} else {
			bool fits = n == need && r == (ssize)need;
			if (!fits && r != -1) why = mc::sfmt("returned %ld for a buffer of %zu (needs %zu)", (long)r, n, need);
			else if (fits ? memcmp(b, want.c_str(), need) != 0 : strnlen(b, n) == n) why = "buffer not terminated";
			else if (!fits && n == need && 0) why = "";
		}
		if (!why.empty()) mc::violation(key + mc::sfmt(" in a buffer of %zu", n), why);
		free(b);
		if (!why.empty()) return;
	}
	mc::state(mc::hash_str(want, 11)); mc::trace_ok();
}
template <class... A> static T ref(char const* fmt, A... a) { char b[4096]; snprintf(b, sizeof b, fmt, a...); return b; }

static void ints()
{
	static const char* flags[] = { "", "-", "0" };
	static const char* widths[] = { "", "1", "2", "5", "12", "20" };
	static const long long vals[] = { 0, 1, 9, 10, 42, 255, 4096, 65535, 99999, 2147483647LL, 4294967295LL, 4294967296LL, 123456789012345LL, 9223372036854775807LL, -1, -9, -10, -128, -32768, -2147483648LL, -9223372036854775807LL };
	static const char* lens[] = { "", "hh", "h", "l", "ll", "z", "t" };
	for (auto f : flags) for (auto w : widths) for (auto l : lens) for (char c : {'d', 'i', 'u', 'x', 'X', 'o'}) {
		T fmt = T("<%") + f + w + l + c + ">";
		if (*f == '0' && !*w) continue;
		if (!mc::begin("integers with " + fmt)) continue;
		for (long long v : vals) {
			bool sgn = c == 'd' || c == 'i' || c == 'o';
			if (*l == 'z') { if (sgn) continue; }
			if (*l == 't' && !(c == 'd' || c == 'i')) continue;
			if (c == 'o' && v < 0) continue;
			long long tv = !strcmp(l, "hh") ? (sgn ? (long long)(signed char)v : (long long)(unsigned char)v) : !strcmp(l, "h") ? (sgn ? (long long)(short)v : (long long)(unsigned short)v) : !*l ? (sgn ? (long long)(int)v : (long long)(unsigned)v) : v;
			if (c == 'o' && tv < 0) continue;
			if (sgn && tv < 0 && *f == '0') continue;
			T key = fmt + " of " + std::to_string(v);
			if (!*l || *l == 'h') check(key, ref(fmt.c_str(), (int)v), fmt.c_str(), (int)v);
			else check(key, ref(fmt.c_str(), v), fmt.c_str(), v);
		}
	}
	for (int w = -15; w <= 15; w++) { if (!w || !mc::begin(mc::sfmt("width %d passed as an argument", w))) continue;
		for (int v : {0, 7, -42, 123456}) { check(mc::sfmt("%%*d of %d,%d", w, v), ref("<%*d>", w, v), "<%*d>", w, v); check(mc::sfmt("%%*x of %d,%d", w, v), ref("[%*x", w, v), "[%*x", w, v); }
		for (const char* s : {"", "a", "hello", "0123456789abcdefghij"}) { check(mc::sfmt("%%*s of %d,%s", w, s), ref("<%*s>", w, s), "<%*s>", w, s);
			mc::Exact e(s); check(mc::sfmt("%%*S of %d,%s", w, s), ref("<%*s>", w, s), "<%*S>", w, e.s);
			StrBuilder b = strbuilder_make_c_str(mc::temp(), s); check(mc::sfmt("%%*SB of %d,%s", w, s), ref("<%*s>", w, s), "<%*SB>", w, b); strbuilder_free(&b); }
	}
	if (mc::begin("pointers")) for (size_t p : {(size_t)0, (size_t)1, (size_t)0xdeadbeef, (size_t)0x7fffffffffff}) check(mc::sfmt("%%p of %zx", p), ref("p=%zx.", p), "p=%p.", (void*)p);
}
static void strs()
{
	std::vector<T> v = {"", "a", "ab", "Hello", " sp ace ", "with\nnewline\ttab", "%d%s", "0123456789012345678901234567890123456789", "\xc3\xa9\xff"};
	static const char* flags[] = { "", "-", "0" }; static const char* widths[] = { "", "1", "5", "12", "60" };
	for (auto& s : v) for (auto f : flags) for (auto w : widths) {
		if (*f == '0' && !*w) continue;
		if (!mc::begin(mc::sfmt("strings: '%s' with flags '%s' and width '%s'", mc::esc(s).c_str(), f, w))) continue;
		T fs = T("{%") + f + w + "s}", fS = T("{%") + f + w + "S}", fB = T("{%") + f + w + "SB}";
		T pad = *w && (size_t)atoi(w) > s.size() ? T(atoi(w) - s.size(), *f == '0' ? '0' : ' ') : T();
		T want = "{" + (*f == '-' ? s + pad : pad + s) + "}";
		mc::ExactZ z(s); mc::Exact e(s); StrBuilder b = strbuilder_make_str(mc::temp(), e.s);
		check(fs + " of " + s, want, fs.c_str(), z.p); check(fS + " of " + s, want, fS.c_str(), e.s); check(fB + " of " + s, want, fB.c_str(), b);
		check("nothing after " + fS + " of " + s, want + want + "x", (fS + fS + "x").c_str(), e.s, e.s);
		// precision not longer than the text
		for (int p = 0; p <= (int)s.size() && p <= 8; p++) {
			T cut = s.substr(0, p); T pd = *w && (size_t)atoi(w) > cut.size() ? T(atoi(w) - cut.size(), ' ') : T();
			if (p == 0 && !pd.empty()) continue;
			T ps = T("{%") + f + w + "." + std::to_string(p) + "s}", pa = T("{%") + f + w + ".*s}"; T wp = "{" + (*f == '-' ? cut + pd : pd + cut) + "}";
			if (p) check(ps + " of " + s, wp, ps.c_str(), z.p);
			check(pa + " of " + s, wp, pa.c_str(), p, z.p);
			if (p) { mc::Exact part(cut); check(pa + " of unterminated " + s, wp, pa.c_str(), p, part.p); }
		}
		strbuilder_free(&b);
	}
	for (int c = 1; c < 256; c++) if (mc::begin(mc::sfmt("character %d", c))) { check(mc::sfmt("%%c of %d", c), T("<") + (char)c + ">", "<%c>", c); check(mc::sfmt("%%4c of %d", c), T("<   ") + (char)c + ">", "<%4c>", c); check(mc::sfmt("%%-4c of %d", c), T("<") + (char)c + "   >", "<%-4c>", c);
		if (c != '%') { T lit = T("a") + (char)c + "b"; check(mc::sfmt("literal %d", c), lit, lit.c_str()); } }
	for (int w = 1; w <= 20; w++) if (mc::begin(mc::sfmt("repeated character, %d", w))) { T f = mc::sfmt("%%%dr|", w); check(f, T(w, '\t') + "|", f.c_str(), '\t'); check("%*r", T(w, '=') + "|", "%*r|", w, '='); }
	if (mc::begin("percent")) { check("%%", "%", "%%"); check("100%%", "100%!", "100%%!"); check("%%d", "%d", "%%d"); check("empty", "", ""); }
}
static void floats()
{
	for (int k = -80; k <= 8000; k += 1) {
		if (k > 200 && k % 13) continue;
		if (!mc::begin(mc::sfmt("floating point %d/8", k))) continue;
		double v = k / 8.0; if (v == 0) continue;
		for (const char* f : {"%f", "%.3f", "%.4f", "%9f", "%12.3f", "%3.3f"}) { T fmt = T("[") + f + "]"; check(fmt + mc::sfmt(" of %d/8", k), ref(fmt.c_str(), v), fmt.c_str(), v); }
		if (k % 8 == 0) check(mc::sfmt("%%.0f of %d", k / 8), ref("%.0f", v), "%.0f", v);
	}
	for (double v : {1e3, 123456.0, 4294967296.5, 1e15, 0.0009765625, -0.0009765625, 1.0000019073486328125}) if (mc::begin(mc::sfmt("floating point %.20g", v))) { T fm = "%.20f"; check(mc::sfmt("%%.20f of %.20g", v), ref("%.20f", v), "%.20f", v); check(mc::sfmt("%%40.20f of %.20g", v), ref("%40.20f", v), "%40.20f", v); }
}
// every pair and triple of a small set of conversions with literals in between: arguments are consumed in order
static void mixes(bool thorough)
{
	struct K { const char* f; int kind; }; static const K ks[] = { {"%d", 0}, {"%5d", 0}, {"%s", 1}, {"%-6s", 1}, {"%S", 2}, {"%SB", 3}, {"%c", 4}, {"%ll" "u", 5}, {"%.2f", 6}, {"%zu", 5}, {"%%", 7}, {"%x", 0}, {"lit", 7}, {"%.*s", 8}, {"%*s", 9} };
	const int N = sizeof ks / sizeof *ks;
	mc::Exact e("Str"); StrBuilder sb = strbuilder_make_c_str(mc::temp(), "builder");
	// arguments are passed through a va_list built by hand on the register save area: use an explicit dispatcher on two slots
	auto text = [&](int k, T& fmt, T& want) { fmt = ks[k].f; switch (ks[k].kind) { case 0: want = ref(ks[k].f, 77); break; case 1: want = ref(ks[k].f, "cs"); break; case 2: want = "Str"; break; case 3: want = "builder"; break; case 4: want = "q"; break; case 5: want = ref(ks[k].f, 18446744073709551615ull); break; case 6: want = "2.25"; break; case 7: want = ks[k].f[0] == '%' ? "%" : "lit"; break; case 8: want = "xy"; break; case 9: want = "    cs"; break; } };
#define ONE(k, CONT) switch (ks[k].kind) { case 0: CONT(77); break; case 1: CONT("cs"); break; case 2: CONT(e.s); break; case 3: CONT(sb); break; case 4: CONT((int)'q'); break; case 5: CONT(18446744073709551615ull); break; case 6: CONT(2.25); break; case 7: CONT0(); break; case 8: CONT2(2, "xyz"); break; case 9: CONT2(6, "cs"); break; }
	for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) {
		if (!mc::begin(mc::sfmt("conversions %s then %s then %%d", ks[a].f, ks[b].f))) continue;
		for (const char* lit : {"", ", ", " : "}) {
			T fa, fb, wa, wb; text(a, fa, wa); text(b, fb, wb);
			T fmt = fa + lit + fb + lit + "%d\n", want = wa + lit + wb + lit + "-5\n", key = "mix " + fmt;
			auto second = [&](auto... x) {
#define CONT(y)  check(key, want, fmt.c_str(), x..., y, -5)
#define CONT2(y,z)  check(key, want, fmt.c_str(), x..., y, z, -5)
#define CONT0()  check(key, want, fmt.c_str(), x..., -5)
				ONE(b, CONT)
			};
#undef CONT
#undef CONT2
#undef CONT0
#define CONT(y)  second(y)
#define CONT2(y,z)  second(y, z)
#define CONT0()  second()
			ONE(a, CONT)
		}
	}
	strbuilder_free(&sb);
}
// text that goes through the thread-local print buffer, standard output and error streams
static void outs()
{
	for (long n : {0L, 1L, 5L, 1000L, (long)GEN_PRINTF_MAXLEN - 3, (long)GEN_PRINTF_MAXLEN - 2}) if (mc::begin(mc::sfmt("printing %ld characters to a buffer", n))) {
		T big((size_t)n, 'm'); mc::ExactZ z(big);
		char* r = c_str_fmt_buf("%s", z.p); mc::transition(); mc::trace_ok(); if (T(r) != big) mc::violation(mc::cur_desc, mc::sfmt("got %zu characters", strlen(r)));
	}
	for (long n : {(long)GEN_PRINTF_MAXLEN - 1, (long)GEN_PRINTF_MAXLEN, (long)GEN_PRINTF_MAXLEN + 1, 3L * GEN_PRINTF_MAXLEN}) for (int form = 0; form < 3; form++) if (mc::begin(mc::sfmt("printing %ld characters, form %d", n, form))) {
		T big((size_t)n, 'm'); mc::ExactZ z(big); mc::transition(); mc::trace_ok(); char* r = form == 0 ? c_str_fmt_buf("%s", z.p) : form == 1 ? c_str_fmt_buf(z.p) : c_str_fmt_buf("%d%s%d", 1, z.p, 2);
		size_t l = strnlen(r, GEN_PRINTF_MAXLEN); if (l >= GEN_PRINTF_MAXLEN) mc::violation(mc::cur_desc, "not terminated within its buffer");
	}
}
void explore(bool thorough) { ints(); strs(); floats(); mixes(thorough); outs(); }
