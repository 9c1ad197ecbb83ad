// P18: the standard library (str, math, std, msg, sys) against references computed here from the documentation ("as c ...").
// Arguments are enumerated exhaustively over alphabets; one execution runs one generated script through compiler and VM.
#include "wr.h"
#include <cmath>
#include <climits>
using namespace mc;
typedef std::string S;
static S lit(const S& s) { S o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if (ch == 0) o += "\\000"; else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else o += (char)ch; } return o + "\""; }
static S q(const S& s) { return wr::quote(s.data(), s.size()); }
static S cat(const std::vector<S>& v) { S o; for (auto& s : v) o += s + ";"; return o; }
static std::vector<S> cut(const S& r) { std::vector<S> p; size_t a = 0; bool in = false; for (size_t i = 0; i < r.size(); ++i) { if (r[i] == '"') in = !in; if (r[i] == ';' && !in) { p.push_back(r.substr(a, i - a)); a = i + 1; } } if (a < r.size()) p.push_back(r.substr(a)); return p; }
// a script whose outputs are known: compared one by one; "*" = only has to be produced
struct Exp { S code; std::vector<S> want; void add(const S& expr, const S& w) { code += "out(" + expr + ");\n"; want.push_back(w); } };
static void runExp(Ctx& c, Exp& e, const S& id, bool both = true) {
	c.id(id); for (int gc = both ? 0 : 1; gc < 2; ++gc) { c.note(e.code.substr(0, 1500)); wr::RunOpt o; o.libs = true; o.gcHint = gc ? 0 : -1; long live = wr::g_live; std::vector<S> got = cut(wr::runScript(e.code, o)); c.transition(); if (wr::g_live != live) c.fail("leak", sf("%ld blocks", wr::g_live - live), e.code);
		for (size_t i = 0; i < e.want.size(); ++i) { if (i >= got.size()) { c.fail("stopped:" + id, sf("output %d missing after ", (int)i) + (got.size() ? got.back() : S("nothing")), e.code); return; } if (e.want[i] != "*" && got[i] != e.want[i]) { std::vector<S> ln; size_t a = 0, n; while ((n = e.code.find("out(", a)) != S::npos) { size_t z = e.code.find('\n', n); ln.push_back(e.code.substr(n, z - n)); a = z; } c.fail("value:" + id, (i < ln.size() ? ln[i] : "") + " gives " + got[i] + " instead of " + e.want[i], e.code); return; } }
		if (got.size() != e.want.size()) { c.fail("extra:" + id, "unexpected output " + got[e.want.size()], e.code); return; } }
	c.trace(); c.state(hashs(e.code)); c.outcome(cat(e.want)); }
// ---------------------------------------------------------------- formatting
struct Arg { S src, s; int i; bool str; };
static const int iv[] = { 0, 1, -1, 9, 65, 255, -42, 65535, 65536, 1234567, INT_MAX, INT_MIN, -2147483647 };
static S bin(unsigned v) { S s; do { s.insert(s.begin(), '0' + (v & 1)); v >>= 1; } while (v); return s; }
static S pad(const S& b, bool left, int w) { S o = b; while ((int)o.size() < w) { if (left) o += ' '; else o.insert(o.begin(), ' '); } return o; }
// the reference: C where C defines it
static S ref1(const S& fl, int w, char cv, int v, const S& s) {
	bool left = fl.find('-') != S::npos, zero = fl.find('0') != S::npos, alt = fl.find('#') != S::npos; char f[32], b[256];
	switch (cv) { case 's': return pad(s, left, w); case 'c': return S(1, (char)v); case '%': return "%";
	case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': snprintf(f, sizeof f, w ? "%%%s%d%c" : "%%%s%.0d%c", fl.c_str(), w, cv); snprintf(b, sizeof b, f, v); return b;
	case 'b': case 'p': { S d = cv == 'b' ? bin((unsigned)v) : sf("%X", v), pre = cv == 'p' ? "0x" : ""; if (zero && !left) while ((int)(d.size() + pre.size()) < w) d.insert(d.begin(), '0'); return pad(pre + d, left, w); } }
	return "?"; }
static const char* fls[] = { "", "0", "-", "-0", "0-", "#" };
static const int wd[] = { 0, 1, 2, 5, 12, 33, 40 };
static void formatOne(Ctx& c) { static const S cvs = "diuxXobpcs%"; int k = c.choose((int)cvs.size()), f = c.choose(6); char cv = cvs[k]; c.split(); if (f == 5 && cv != 'x') throw Skip(); if (cv == '%' && f) throw Skip(); Exp e; e.code = "var s; var t; var n; ";
	for (int w : wd) { if ((cv == '%' || cv == 'c') && w) continue; S spec = S("%") + fls[f] + (w ? sf("%d", w) : "") + cv; static const S sv[] = { "", "x", "abc", S("a\0b", 3), S(41, 'y') };
		int n = cv == 's' ? 5 : 13; for (int a = 0; a < n; ++a) { if (f == 5 && !iv[a]) continue; S want = ref1(fls[f], w, cv, iv[a], sv[a % 5]), src = cv == 's' ? lit(sv[a]) : iv[a] == INT_MIN ? S("-2147483647 - 1") : sf("%d", iv[a]); S full = "<" + want + ">";
			e.add("str::format(" + lit("<" + spec + ">") + ", " + src + ")", q(full)); e.code += "s = \"\"; n = str::sprintf(s, " + lit(spec) + ", " + src + "); "; e.add("s, n", q(want) + sf(" %d", (int)want.size())); } }
	runExp(c, e, S("fmt:%") + fls[f] + cv); }
// two conversions around literals, every destination history, aliasing of destination, arguments and format
static void formatAlias(Ctx& c) { static const char* cv[] = { "%d", "%s", "%5s", "%-4d|", "%c", "lit", "%x", "%%", "%s%s" }; int a = c.choose(9), b = c.choose(9); int dest = c.choose(7), alias = c.choose(4); c.split();
	static const S dv[] = { "", "s", "0123456789", S(79, 'p'), S(80, 'q'), S(81, 'r'), S(400, 'z') }; S fmt = S(cv[a]) + cv[b]; int i1 = 65, argc = 0; S self = alias ? dv[dest] : S("arg"); S args, want; int ai = 0; Exp e; e.code = "var s = " + lit(dv[dest]) + "; var t = s; var u = { s, 1 }; var f = " + lit(fmt) + "; ";
	auto one = [&](const S& x) { if (x == "lit") { want += x; return; } if (x == "%%") { want += "%"; return; } S y = x; do { S z = y == "%s%s" ? "%s" : y; y = y == "%s%s" ? "%s" : ""; bool st = z.find('s') != S::npos; S as = st ? (alias ? (alias == 2 ? S("t") : S("s")) : lit("arg")) : "65"; args += ", " + as; if (z == "%-4d|") want += "65  |"; else if (z == "%5s") want += pad(self, false, 5); else want += ref1("", 0, z[z.size() - 1], 65, self); } while (!y.empty()); };
	one(cv[a]); one(cv[b]); S old = dv[dest]; bool self3 = alias == 3; if (self3) { // the destination is also the format
		S f2 = dv[dest]; e.code += "var n = str::sprintf(s, s); "; e.add("s, n", q(f2) + sf(" %d", (int)f2.size())); e.add("t, u", q(old) + " [" + q(old) + ",1]"); e.code += "s = \"<%s>\"; n = str::sprintf(s, s, s); "; e.add("s, n", q("<<%s>>") + " 6"); }
	else { e.code += "var n = str::sprintf(s, f" + args + "); "; e.add("s, n", q(want) + sf(" %d", (int)want.size())); e.add("t, u", q(old) + " [" + q(old) + ",1]"); e.add("f", q(fmt)); e.code += "var m = str::format(f" + args + "); "; S w2; e.add("m", alias == 1 && (a != 5 || b != 5) ? "*" : q(want)); e.code += "for ( var k = 0; k < 3; ++k ) { str::sprintf(s, \"%s.\", s); } "; e.add("s, s._count", q(want + "...") + sf(" %d", (int)want.size() + 3)); }
	runExp(c, e, sf("alias:%d:%d:%d:%d", a, b, dest, alias)); }
static void formatLen(Ctx& c) { int n = 70 + c.choose(20); c.split(); Exp e; e.code = "var s; var n; "; for (int w = 1; w <= 3; ++w) { S p(n - w, 'a'); S want = p + pad("7", false, w); e.code += sf("n = str::sprintf(s, \"%%s%%%dd\", ", w) + lit(p) + ", 7); "; e.add("s, n, s._count", q(want) + sf(" %d %d", n, n)); e.add("str::format(\"%s%s\", " + lit(p) + ", \"" + S(w, 'b') + "\")", q(p + S(w, 'b'))); } e.code += sf("s = str::format(\"%%%dd\", 5); ", n); e.add("s, s._count", q(pad("5", false, n)) + sf(" %d", n)); runExp(c, e, sf("len:%d", n)); }
// every short format string, well formed or not: no invalid access, and format and sprintf agree
static void formatRaw(Ctx& c) { static const char al[] = "%ds0#-.cf9x"; int len = 1 + c.choose(c.thorough() ? 5 : 4); S f; for (int i = 0; i < len; ++i) { f += al[c.choose(len == 5 ? 8 : 11)]; if (i == 1) c.split(); } if (len < 2) c.split(); if (f.find('%') == S::npos && len > 2) throw Skip(); static const char* as[] = { "", ", 5", ", \"str\", -7", ", 1.5, { 1, 2 }", ", { 1 : 2 }, \"s\"" }; S code = "var s; var n; var t; "; for (auto a : as) code += "t = str::format(" + lit(f) + a + "); s = 0; n = str::sprintf(s, " + lit(f) + a + "); out(t, n, n == s._count || s == 0); ";
	c.id("raw:" + f); c.note(code); wr::RunOpt o; o.libs = true; long live = wr::g_live; S r = wr::runScript(code, o); c.transition(); c.trace(); std::vector<S> got = cut(r); if (got.size() != 5) c.fail("raw", "format <" + f + "> stops the script: " + r, code); else for (auto& g : got) if (g[g.size() - 1] != '1') c.fail("rawlen", "format <" + f + ">: count and string disagree: " + g, code); if (wr::g_live != live) c.fail("leak", sf("%ld blocks", wr::g_live - live), code); c.state(hashs(code)); }
#ifdef WRENCH_FLOAT_SPRINTF
static void formatFloat(Ctx& c) { static const char* sp[] = { "%f", "%g", "%.2f", "%8.3f", "%-8.1f|", "%10f", "%010.2f", "%.0f", "%5.1g", "%12g", "%.10f", "%60f" }; static const char* lt[] = { "", "a", "%%", "%d", "%s" }; int a = c.choose(12), b = c.choose(5), d = c.choose(5), a2 = c.choose(13); c.split(); static const float fv[] = { 0.f, 1.f, -1.5f, 3.14159f, 1e10f, 1e-5f, -123456.789f, 3.4e38f }; Exp e; e.code = "var s; var n; ";
	for (float v : fv) { S fmt = lt[b], args, want; auto side = [&](const char* l) { S x = l; if (x == "%d") { args += ", 42"; want += "42"; } else if (x == "%s") { args += ", \"str\""; want += "str"; } else if (x == "%%") want += "%"; else want += x; }; side(lt[b]); char b1[400]; snprintf(b1, sizeof b1, sp[a], v); want += b1; fmt += sp[a]; S src = v < 0 ? sf("0.0 - %.9g", -v) : sf("%.9g", v); if (v > 3e38f) src = "100000000000000000000.0 * 3400000000000000000.0"; else src = v < 0 ? sf("0.0 - %.6f", -v) : sf("%.6f", v); if (v > 3e38f) { snprintf(b1, sizeof b1, sp[a], 100000000000000000000.0f * 3400000000000000000.0f); want.clear(); args.clear(); side(lt[b]); want += b1; } args += ", " + src; side(lt[d]); fmt += lt[d]; if (a2 < 12) { snprintf(b1, sizeof b1, sp[a2], v > 3e38f ? 100000000000000000000.0f * 3400000000000000000.0f : v); want += b1; fmt += sp[a2]; args += ", " + src; }
		e.code += "n = str::sprintf(s, " + lit(fmt) + args + "); "; e.add("s, n", q(want) + sf(" %d", (int)want.size())); e.add("str::format(" + lit(fmt) + args + ")", q(want)); }
	runExp(c, e, sf("float:%d:%d:%d:%d", a, b, d, a2)); }
#else
static void formatFloat(Ctx& c) { c.choose(1); c.split(); throw Skip(); }
#endif
// ---------------------------------------------------------------- string functions
static bool sp(char ch) { return isspace((unsigned char)ch) && (unsigned char)ch < 128; }
static S tl(S s) { size_t i = 0; while (i < s.size() && sp(s[i])) ++i; return s.substr(i); }
static S tr(S s) { while (!s.empty() && sp(s.back())) s.pop_back(); return s; }
static S low(S s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }
static S up(S s) { for (auto& ch : s) if (ch >= 'a' && ch <= 'z') ch -= 32; return s; }
static S mkstr(Ctx& c, int maxLen) { static const char al[] = { 'a', ' ', 'Z', '\0', '\t', '.', '\xe9', '\n' }; int n = c.choose(maxLen + 1); S s; int A = n > 3 ? 5 : 8; for (int i = 0; i < n; ++i) { s += al[c.choose(A)]; if (i == 1) c.split(); } if (n < 2) c.split(); return s; }
static void strings(Ctx& c) { S s = mkstr(c, c.thorough() ? 6 : 5); Exp e; int n = (int)s.size(); e.code = "var s = " + lit(s) + "; var t = s;\n";
	e.add("str::strlen(s), s._count", sf("%d %d", n, n)); e.add("str::tolower(s)", q(low(s))); e.add("str::toupper(s)", q(up(s))); e.add("str::trim(s)", q(tl(tr(s)))); e.add("str::trimleft(s)", q(tl(s))); e.add("str::trimright(s)", q(tr(s)));
	for (int p = 0; p <= n + 1; ++p) { S sub = p < n ? s.substr(p) : ""; for (int l = 0; l <= n - p + 2; ++l) { S w = sub.substr(0, l); e.add(sf("str::mid(s, %d, %d)", p, l), q(w)); e.add(sf("str::substr(s, %d, %d)", p, l), q(w)); } e.add(sf("str::mid(s, %d)", p), q(sub)); e.add(sf("str::left(s, %d)", p), q(s.substr(0, p))); e.add(sf("str::trunc(s, %d)", p), q(s.substr(0, p))); e.add(sf("str::right(s, %d)", p), q(p >= n ? s : s.substr(n - p)));
		S ins = s; ins.insert(p > n ? n : p, "<>"); e.add(sf("str::insert(s, \"<>\", %d)", p), q(ins)); ins = s; ins.insert(p > n ? n : p, s); e.add(sf("str::insert(s, s, %d)", p), q(ins)); }
	for (char ch : S("aZ 1x\t", 6)) { size_t f = s.find(ch); e.add(sf("str::chr(s, %d)", ch), sf("%d", f == S::npos ? -1 : (int)f)); }
	e.add("str::chr(s, 0)", sf("%d", s.find('\0') == S::npos ? -1 : (int)s.find('\0')));
	e.add("str::concat(s, \"x\"), s + \"x\"", q(s + "x") + " " + q(s + "x")); e.add("str::concat(\"\", s, s, \"y\")", q(s + s + "y")); e.add("str::concat(s, \"\")", q(s));
	static const char* odd[] = { "-1", "2147483647", "-2147483647 - 1", "1.5", "\"x\"", "{ 1, 2 }" }; for (auto o : odd) { static const char* fn[] = { "left(s, %s)", "right(s, %s)", "mid(s, %s)", "mid(s, %s, 2)", "mid(s, 1, %s)", "mid(s, %s, %s)", "insert(s, \"<>\", %s)", "chr(s, %s)" }; for (auto f : fn) { S t = f; size_t p; while ((p = t.find("%s")) != S::npos) t.replace(p, 2, o); e.add("str::" + t, "*"); } static const char* fo[] = { "strlen(%s)", "tolower(%s)", "toupper(%s)", "trim(%s)", "trimleft(%s)", "trimright(%s)", "concat(s, %s)", "concat(%s, s)", "insert(s, %s, 1)", "mid(%s, 0, 1)", "left(%s, 1)", "right(%s, 1)" }; for (auto f : fo) { S t = f; t.replace(t.find("%s"), 2, o); e.add("str::" + t, "*"); } }
	e.add("s, t, s == t", q(s) + " " + q(s) + " 1"); runExp(c, e, "str:" + q(s), n < 4); }
static void chars(Ctx& c) { int part = c.choose(16); c.split(); Exp e; e.code = "var r;\n"; for (int ch = part * 16; ch < part * 16 + 16; ++ch) { bool a = ch < 128; e.add(sf("str::isspace(%d) != 0, str::isdigit(%d) != 0, str::isalpha(%d) != 0", ch, ch, ch), sf("%d %d %d", a && isspace(ch), a && isdigit(ch), a && isalpha(ch))); e.add(sf("str::tolower(%d), str::toupper(%d)", ch, ch), a ? sf("%d %d", tolower(ch), toupper(ch)) : "*"); S one(1, (char)ch); if (ch && ch != '"' && ch != '\\' && ch != '\n' && ch != '\r') { e.add("str::tolower(" + lit(one) + "), str::toupper(" + lit(one) + "), str::strlen(" + lit(one) + ")", q(low(one)) + " " + q(up(one)) + " 1"); e.add("str::isalpha(" + lit(one) + "[0]) != 0", sf("%d", a && isalpha(ch))); } } runExp(c, e, sf("chars:%d", part)); }
static void tol(Ctx& c) { static const char al[] = "0179-+ xaz"; int n = c.choose(c.thorough() ? 6 : 5); S s; for (int i = 0; i < n; ++i) { s += al[c.choose(10)]; if (i == 1) c.split(); } if (n < 2) c.split(); Exp e; e.add("str::tol(" + lit(s) + ")", sf("%d", (int)strtol(s.c_str(), 0, 10))); for (int b : { 2, 8, 10, 16, 36 }) e.add("str::tol(" + lit(s) + sf(", %d)", b), sf("%d", (int)strtol(s.c_str(), 0, b))); runExp(c, e, "tol:" + s, n < 4); }
static void tolLong(Ctx& c) { int d = c.choose(5), n = 1 + c.choose(40); c.split(); static const int base[] = { 2, 8, 10, 16, 36 }; Exp e; for (int lead = 0; lead < 3; ++lead) { S s; for (int i = 0; i < n; ++i) s += i == 0 ? '1' : (i * 7 % 3 == 1 ? '1' : '0'); S t = (lead == 1 ? S(20, '0') : lead == 2 ? S(20, ' ') : S()) + s; long long v = strtol(s.c_str(), 0, base[d]); if (v > INT_MAX) continue; e.add("str::tol(" + lit(t) + sf(", %d)", base[d]), sf("%lld", v)); e.add("str::tol(" + lit("-" + s) + sf(", %d)", base[d]), sf("%lld", -v)); e.add("str::tol(" + lit(s + " tail") + sf(", %d)", base[d]), sf("%lld", v)); } if (e.want.empty()) throw Skip(); runExp(c, e, sf("tolLong:%d:%d", base[d], n)); }
// ---------------------------------------------------------------- math
static const struct { const char* src; float v; bool isInt; } mv[] = { { "0", 0, 1 }, { "1", 1, 1 }, { "(0 - 1)", -1, 1 }, { "7", 7, 1 }, { "(0 - 30)", -30, 1 }, { "0.5", .5f, 0 }, { "(0.0 - 0.5)", -.5f, 0 }, { "1.5", 1.5f, 0 }, { "2.5", 2.5f, 0 }, { "(0.0 - 4.1)", -4.1f, 0 }, { "3.14159", 3.14159f, 0 }, { "72.25", 72.25f, 0 }, { "10000.5", 10000.5f, 0 }, { "(0.0 - 1000000.25)", -1000000.25f, 0 }, { "0.0001", .0001f, 0 }, { "16777217", 16777217.f, 1 } };
static bool closef(float a, float b) { if (a != a || b != b) return a != a && b != b; if (std::isinf(a) || std::isinf(b)) return a == b; float d = fabsf(a - b), m = fmaxf(fabsf(a), fabsf(b)); return d <= m * 1e-6f || d < 1e-30f; }
static float outf(const S& s) { if (s == "fNaN") return NAN; return s.size() && s[0] == 'f' ? strtof(s.c_str() + 1, 0) : NAN; }
static void math1(Ctx& c) { static const struct { const char* n; float (*f)(float); } fn[] = { { "sin", sinf }, { "cos", cosf }, { "tan", tanf }, { "sinh", sinhf }, { "cosh", coshf }, { "tanh", tanhf }, { "asin", asinf }, { "acos", acosf }, { "atan", atanf }, { "log", logf }, { "ln", logf }, { "log10", log10f }, { "exp", expf }, { "trunc", truncf }, { "sqrt", sqrtf }, { "ceil", ceilf }, { "floor", floorf }, { "abs", fabsf }, { "deg2rad", [](float x) { return x * 3.14159265358979f / 180.f; } }, { "rad2deg", [](float x) { return x * 180.f / 3.14159265358979f; } } };
	int k = c.choose(20); c.split(); for (auto& m : mv) { S code = S("var x = ") + m.src + "; out(math::" + fn[k].n + "(x)); var a = { x }; out(math::" + fn[k].n + "(a[0])); out(x);"; c.id(S("math:") + fn[k].n + m.src); c.note(code); wr::RunOpt o; o.libs = true; std::vector<S> g = cut(wr::runScript(code, o)); c.transition(); float w = fn[k].f(m.v); if (g.size() != 3 || g[0][0] != 'f' || !closef(outf(g[0]), w) || g[1] != g[0]) c.fail("math", code + " gives " + cat(g) + sf(" instead of %.9g", w), code); c.state(hashs(code)); } c.trace(); }
static void math2(Ctx& c) { static const char* fn[] = { "atan2", "pow", "fmod", "ldexp" }; int k = c.choose(4), i = c.choose(16); c.split(); for (int j = 0; j < 16; ++j) { float x = mv[i].v, y = mv[j].v; if (k == 3 && fabsf(y) > 100) continue; float w = k == 0 ? atan2f(y, x) : k == 1 ? powf(x, y) : k == 2 ? fmodf(x, y) : ldexpf(x, (int)y); S code = S("var x = ") + mv[i].src + "; var y = " + mv[j].src + "; out(math::" + fn[k] + "(x, y));"; c.id(sf("math2:%s:%d:%d", fn[k], i, j)); c.note(code); wr::RunOpt o; o.libs = true; std::vector<S> g = cut(wr::runScript(code, o)); c.transition(); if (g.size() != 1 || g[0][0] != 'f' || !closef(outf(g[0]), w)) c.fail("math2", code + " gives " + cat(g) + sf(" instead of %.9g", w), code); c.state(hashs(code)); } c.trace(); }
static void iscale(Ctx& c) { int a = c.choose(13), b = c.choose(13); c.split(); auto L = [](int v) { return v == INT_MIN ? S("(-2147483647 - 1)") : sf("%d", v); }; Exp e; for (int d : iv) { S w = "0"; if (d) { long long r = (long long)iv[a] * iv[b] / d; w = sf("%d", (int)r); } e.add("math::iscale(" + L(iv[a]) + ", " + L(iv[b]) + ", " + L(d) + ")", w); } runExp(c, e, sf("iscale:%d:%d", a, b)); }
static void mathArgs(Ctx& c) { static const char* fn[] = { "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan", "atan2", "log", "ln", "log10", "exp", "pow", "fmod", "trunc", "sqrt", "ceil", "floor", "abs", "ldexp", "deg2rad", "rad2deg", "iscale" }; int k = c.choose(25), n = c.choose(5); c.split(); Exp e; static const char* av[] = { "\"str\"", "{ 1, 2 }", "2", "1.5" }; for (int r = 0; r < 4; ++r) { S a; for (int i = 0; i < n; ++i) a += (i ? ", " : "") + S(av[(i + r) % 4]); e.add(S("math::") + fn[k] + "(" + a + ")", "*"); e.add("1", "1"); } runExp(c, e, sf("mathArgs:%s:%d", fn[k], n)); }
// ---------------------------------------------------------------- rand
static void rnd(Ctx& c) { static const char* rg[] = { "5", "2, 6", "6, 2", "0, 1", "-3, 3", "-2147483647, 2147483647", "-2147483647 - 1, 2147483647", "0", "-5", "2147483647", "7, 7", "0, 65535", "-2147483647 - 1, -2147483647", "2147483646, 2147483647" }; static const long lo[] = { 0, 2, 6, 0, -3, -2147483647L, -2147483648L, 0, 0, 0, 7, 0, -2147483648L, 2147483646L }, hi[] = { 5, 6, 6, 1, 3, 2147483647L, 2147483647L, 0, 0, 2147483647L, 7, 65535, -2147483647L, 2147483647L }; static const char* sd[] = { "1", "-1", "12345", "2147483647", "-2147483647 - 1", "127773", "42" };
	int r = c.choose(14), s = c.choose(7), n = 300; c.split(); S code = S("std::srand(") + sd[s] + sf("); for ( var i = 0; i < %d; ++i ) { out(std::rand(", n) + rg[r] + ")); } "; c.id(sf("rand:%d:%d", r, s)); c.note(code); wr::RunOpt o; o.libs = true; S o1 = wr::runScript(code, o), o2 = wr::runScript(code, o); c.transition(2); c.trace(); c.state(hashs(code)); if (o1 != o2) c.fail("seed", "the same seed gives different sequences", code); std::vector<S> g = cut(o1); std::set<long> seen; if ((int)g.size() != n) c.fail("rand", "stops: " + o1.substr(0, 200), code); for (auto& x : g) { long v = atol(x.c_str()); seen.insert(v); if (v < lo[r] || v > hi[r]) { c.fail("range", sf("rand(%s) = %ld", rg[r], v), code); break; } } if (hi[r] - lo[r] < 8) for (long v = lo[r]; v <= hi[r]; ++v) if (!seen.count(v)) c.fail("inclusive", sf("rand(%s) never gives %ld in %d draws", rg[r], v, n), code); }
// ---------------------------------------------------------------- messages: every sequence of operations of two contexts against a map
static void msgs(Ctx& c) { static const char* key[] = { "1", "\"k\"", "\"out\"", "\"mine\"" }; int n = c.thorough() ? 5 : 4; std::vector<int> ops; for (int i = 0; i < n; ++i) { ops.push_back(c.choose(10)); if (i == 1) c.split(); } c.id("msg"); std::map<int, int> m; S code[2], want, name[2]; std::vector<std::pair<int, S>> steps;
	WRState* w = wr_newState(64); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); wr::Bytes b; if (wr::compile("function mine() { return 5; } function wrt(k, v) { msg::write(k, v); } function rd(k) { return msg::read(k); } function rdc(k) { return msg::read(k, 1); } function clr(k) { msg::clear(k); } function pk(k) { return msg::peek(k); } function use() { out(mine()); return 9; }", b)) { c.fail("compile", ""); return; }
	WRContext* x[2] = { wr_newContext(w, b.p, b.n), wr_newContext(w, b.p, b.n) }; wr_executeContext(x[0]); wr_executeContext(x[1]); S hist; wr::g_out.clear();
	// 10 operations: 2 writers x 2 keys, read, read+clear, clear x keys by position
	for (int i = 0; i < n; ++i) { int o = ops[i], k = i == 0 ? o % 4 : (o * 3 + i) % 4, who = (o + i) & 1; int kind = o < 4 ? 0 : o < 6 ? 1 : o < 8 ? 2 : 3; WRValue a[2]; if (k == 0) wr_makeInt(a, 1); else wr_makeString(x[who], a, k == 1 ? "k" : k == 2 ? "out" : "mine"); wr_makeInt(a + 1, 100 + i); static const char* f[] = { "wrt", "rd", "rdc", "clr" }; hist += sf("%d:%s(%s) ", who, f[kind], key[k]); c.note(hist); WRValue* r = wr_callFunction(x[who], f[kind], a, kind ? 1 : 2); c.transition(); S got = r ? wr::render(*r) : sf("E%d", wr_getLastError(w)), wnt = kind == 1 || kind == 2 ? sf("%d", m.count(k) ? m[k] : 0) : got; if (!r || got != wnt) { c.fail("msg", hist + "= " + got + " instead of " + wnt); break; } if (kind == 0) m[k] = 100 + i; if (kind > 1) m.erase(k);
		for (int z = 0; z < 4; ++z) { if (z == 0) wr_makeInt(a, 1); else wr_makeString(x[!who], a, z == 1 ? "k" : z == 2 ? "out" : "mine"); WRValue* p = wr_callFunction(x[!who], "pk", a, 1); S pg = p ? wr::render(*p) : "E"; if (pg != sf("%d", (int)m.count(z))) { c.fail("peek", hist + "peek(" + key[z] + ") = " + pg); break; } } }
	for (auto y : x) { WRValue* r = wr_callFunction(y, "use", 0, 0); if (!r || wr::render(*r) != "9") c.fail("msgcall", hist + "afterwards the functions of the script or the host cannot be called"); } if (wr::g_out != "5;5;") c.fail("msgout", hist + "afterwards out(mine()) prints " + wr::g_out); wr_destroyState(w); c.trace(); c.state(hashs(hist)); }
static void msgMany(Ctx& c) { static const int n[] = { 1, 5, 20, 100, 400, 2000 }; int k = c.choose(6), t = c.choose(3); c.split(); static const char* key[] = { "i", "\"key\" + i", "i * 65537" }; S code = S("function f(x) { return x + 1; } ") + sf("var i; for ( i = 0; i < %d; ++i ) { msg::write(", n[k]) + key[t] + ", i + 7); } var bad = 0; " + sf("for ( i = 0; i < %d; ++i ) { if ( msg::read(", n[k]) + key[t] + ") != i + 7 || !msg::peek(" + key[t] + ") ) { bad = bad + 1; } } out(bad, f(1), str::strlen(\"abc\")); " + sf("for ( i = 0; i < %d; i = i + 2 ) { msg::clear(", n[k]) + key[t] + "); } bad = 0; " + sf("for ( i = 0; i < %d; ++i ) { if ( msg::peek(", n[k]) + key[t] + ") != (i & 1) ) { bad = bad + 1; } } out(bad, f(1), math::floor(2.5), str::format(\"%d\", 3));"; c.id(sf("many:%d:%d", k, t)); c.note(code); wr::RunOpt o; o.libs = true; S r = wr::runScript(code, o), w = "0 2 3;0 2 f2 \"3\";"; c.transition(); c.trace(); c.state(hashs(code)); if (r != w) c.fail("many", r + " instead of " + w, code); }
// ---------------------------------------------------------------- sys
static void sysfn(Ctx& c) { static const int ev[] = { 0, 1, 50, 99, 100, 101, 102, 200, 254, 255, 256, 1000, -1, 65637 }; int e = c.choose(14), where = c.choose(6); c.split(); static const char* wr_[] = { "%s; out(2);", "if ( 1 ) { %s; out(3); } out(2);", "for ( var i = 0; i < 3; ++i ) { if ( i == 1 ) { %s; } out(i); } out(9);", "function f() { %s; out(4); return 5; } out(f()); out(6);", "function f(n) { if ( n == 0 ) { %s; out(7); } else { f(n - 1); out(8); } } f(3); out(6);", "struct T { var z = g(); }; function g() { %s; return 3; } var t = new T(); out(t.z); out(5);" }; static const char* pre[] = { "", "", "0;", "", "", "" }; S t = wr_[where]; t.replace(t.find("%s"), 2, sf("sys::halt(%d)", ev[e])); S code = "out(1); " + t; int w = ev[e] > 100 && ev[e] <= 255 ? ev[e] : (int)WR_ERR_USER_err_out_of_range; c.id(sf("halt:%d:%d", ev[e], where)); c.note(code); wr::RunOpt o; o.libs = true; S r = wr::runScript(code, o), want = S("1;") + pre[where] + sf("!E%d", w); c.transition(); c.trace(); c.state(hashs(code)); if (r != want) c.fail("halt", code + " gives " + r + " instead of " + want, code); }
static void isfn(Ctx& c) { Exp e; c.choose(1); c.split(); e.code = "function mine() { return 1; } struct T { var a; }; var v = 1;\n"; e.add("sys::isFunction(\"mine\") != 0, sys::isFunction(\"out\") != 0, sys::isFunction(\"str::mid\") != 0, sys::isFunction(\"nope\"), sys::isFunction(\"\"), sys::isFunction(\"min\"), sys::isFunction(\"outx\")", "1 1 1 0 0 0 0"); e.add("sys::isFunction(\"mine\"), sys::isFunction(\"out\")", "2 1"); e.add("mine()", "1"); runExp(c, e, "isfn"); }
// ---------------------------------------------------------------- numbers as text
static void itext(Ctx& c) { int k = c.choose(33), s = c.choose(2); c.split(); Exp e; long base = k == 32 ? 0 : 1L << k; for (long d = -3; d <= 3; ++d) { long v = (s ? -1 : 1) * (base + d); if (v > INT_MAX || v < INT_MIN) continue; S src = v == INT_MIN ? "-2147483647 - 1" : sf("%ld", v); e.code += "var a = " + src + "; "; if (e.code.find("var a", 6) != S::npos) e.code.replace(e.code.rfind("var a"), 5, "a"); e.add("\"\" + a, a + \"\", \"<\" + a + \">\", str::format(\"%d\", a)", q(sf("%ld", v)) + " " + q(sf("%ld", v)) + " " + q(sf("<%ld>", v)) + " " + q(sf("%ld", v))); e.add("str::tol(\"\" + a) == a, str::tol(a) == a", "1 1"); } if (e.want.empty()) throw Skip(); runExp(c, e, sf("itext:%d:%d", k, s)); }
static float g_fv; static void cbF(WRContext*, const WRValue*, const int, WRValue& r, void*) { wr_makeFloat(&r, g_fv); }
static void ftext(Ctx& c) { // every exponent, sign and a set of mantissas
	int ex = c.choose(255), sg = c.choose(2); c.split(); static const unsigned mt[] = { 0, 1, 0x400000, 0x7fffff, 0x333333, 0x123456, 0x0ccccd, 0x600000, 0x7ffffe, 0x199999 }; for (unsigned m : mt) { unsigned bits = (sg ? 0x80000000u : 0) | (unsigned)ex << 23 | m; memcpy(&g_fv, &bits, 4); c.id(sf("ftext:%08x", bits)); c.note(sf("\"\" + %.9g", g_fv)); wr::g_out.clear(); wr::RunOpt o; o.libs = true; o.setup = [](WRState* w) { wr_registerFunction(w, "fv", cbF); }; S r = wr::runScript("var a = fv(); out(\"\" + a); out(a + \"\"); out(\"<\" + a + \">\"); ", o); c.transition(); c.state(bits); std::vector<S> g = cut(r); if (g.size() != 3 || g[0] != g[1] || g[0].size() < 3 || g[2] != "\"<" + g[0].substr(1, g[0].size() - 2) + ">\"") { c.fail("ftext", sf("%.9g: ", g_fv) + r); continue; } S t = g[0].substr(1, g[0].size() - 2); char* end; double v = strtod(t.c_str(), &end); bool ok = !*end && !t.empty() && fabs(v - (double)g_fv) <= 1.2e-5 + fabs((double)g_fv) * 4e-7; for (char ch : t) if (!isdigit((unsigned char)ch) && ch != '.' && ch != '-') ok = false; if (!ok) c.fail("ftext", sf("%.9g is written ", g_fv) + g[0]); } c.trace(); }
MC_MAIN({ "formatOne", formatOne, false }, { "formatAlias", formatAlias, false }, { "formatLen", formatLen, false }, { "formatRaw", formatRaw, false }, { "formatFloat", formatFloat, false }, { "strings", strings, false }, { "chars", chars, false }, { "tol", tol, false }, { "tolLong", tolLong, false }, { "math1", math1, false }, { "math2", math2, false }, { "iscale", iscale, false }, { "mathArgs", mathArgs, false }, { "rnd", rnd, false }, { "msgs", msgs, false }, { "msgMany", msgMany, false }, { "sysfn", sysfn, false }, { "isfn", isfn, false }, { "itext", itext, false }, { "ftext", ftext, false })
