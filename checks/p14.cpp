// P14: the compiler survives every source. All token sequences up to a bound, all edits of a corpus of programs by one token or one
// byte, every truncation, and sizes around every limit of the bytecode format are compiled from exact-size buffers; whatever compiles
// is run in bounded slices with a protected stack.
#include "wr.h"
using namespace mc;
static const char* tok[] = { "a", "f", "1", "\"s\"", "(", ")", "{", "}", "[", "]", ";", ",", ":", "=", "+", "-", "++", "!", ".", "var", "if", "else", "while", "for", "do", "return", "break", "continue", "switch", "case", "default", "function", "struct", "new", "enum", "goto", "yield", "S", "::", "==", "2.5", "'c'", "+=", "&&", "_count", "->", "//", "/*", "*/", "\"", "\\", "#", "0x", "export", "in", "\n", "const", "%", "_exists", "a:" };
enum { NT = sizeof(tok) / sizeof(tok[0]), NCORE = 40 };
static std::string runBounded(const unsigned char* p, int n, bool& endless) {
	WRState* w = wr_newState(40); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); wr::g_out.clear(); endless = false; std::string o;
#ifdef WRENCH_TIME_SLICES
	wr_setInstructionsPerSlice(w, 50); WRContext* c = wr_run(w, p, n); int g = 0; while (c && !wr_getLastError(w) && wr_getYieldInfo(c)) { if (++g > 6) { endless = true; break; } wr_continue(c); }
	if (wr_getLastError(w)) o = sf("!E%d", wr_getLastError(w));
#endif
	wr_destroyState(w); return o; }
static bool g_run = false; static const bool g_noRun = getenv("MC_NORUN") != 0;
static int judge(Ctx& c, const std::string& src, int flags = WR_INCLUDE_GLOBALS) {
	long live0 = wr::g_live; c.note(src); int err; { wr::Bytes b; err = wr::compile(src, b, flags); c.transition(); if (err < 0 || err >= WR_ERR_LAST) c.fail("errcode", sf("error %d", err), src); if (!err) { if (!b.p || b.n < 8 || !wr_isBytecodeValid(b.p, b.n)) c.fail("invalid", "no error, but no valid bytecode", src); else if (g_run && !g_noRun) { bool e; std::string o = runBounded(b.p, b.n, e); c.transition(); } } else if (b.p && b.n) c.fail("both", sf("error %d and bytecode", err), src); }
	if (err) { WRstr m; unsigned char* p = 0; int n = 0; char* s = (char*)malloc(src.size() ? src.size() : 1); memcpy(s, src.data(), src.size()); int e2 = wr_compile(s, (int)src.size(), &p, &n, &m, (uint8_t)flags); free(s); if (e2 != err) c.fail("unstable", sf("error %d, with a message buffer %d", err, e2), src); if (!m.size()) c.fail("nomsg", "no message", src); if (p) wr_free(p); }
	if (wr::g_live != live0) c.fail("leak", sf("%ld blocks", wr::g_live - live0), src); return err; }
static const char* ctxs[][2] = { { "", "" }, { "var a = 1; ", "" }, { "function f(a) { ", " } f(2);" }, { "var a = ", ";" }, { "struct S { var a; }; var a = new S(); if ( a ) { ", " } out(a);" }, { "var a[] = { 1, ", " };" } };
static void sequences(Ctx& c) { g_run = true; int n = c.choose(c.thorough() ? 6 : 5), k = c.choose(n >= 4 ? 2 : n == 3 ? 4 : 6), sp = n < 3 ? c.choose(2) : 0; std::string s; int lim = n <= 3 ? NT : n == 4 ? (c.thorough() ? NCORE : 24) : 18; for (int i = 0; i < n; ++i) { s += tok[c.choose(lim)]; if (!sp) s += " "; if (i == 1) c.split(); } if (n < 2) c.split(); c.id(sf("seq:%d:", k) + s); c.trace(); std::string src = std::string(ctxs[k][0]) + s + ctxs[k][1]; int e = judge(c, src); c.state(hashs(sf("%d", e) + (e ? "" : s))); }
static void bytes(Ctx& c) { g_run = true; int n = c.choose(4); std::string s; static const char al[] = " \n\t\0aA_09.\"'\\/*(){}[];,:=+-<>!&|^%~#@$?\x7f\x80\xff" "xe"; for (int i = 0; i < n; ++i) { s += n < 3 ? (char)c.choose(256) : al[c.choose(sizeof(al) - 1)]; if (i == 0) c.split(); } if (!n) c.split(); c.id("bytes:" + wr::quote(s.data(), s.size())); c.trace(); int e = judge(c, s); c.state(hashs(s)); (void)e; }
static const char* corpus[] = {
	"var a = 1; var b = \"s\"; out(a + b);", "function f(x, y) { var t = x * y; return t + 1; } out(f(2, 3));", "struct S(p) { var m = p; var n; }; var s = new S(4) { 5, 6 }; out(s.m, s.n);", "for ( var i = 0; i < 3; ++i ) { if ( i == 1 ) { continue; } else { out(i); } }",
	"var a[] = { 1, 2.5, \"x\", { 3, 4 } }; var h = { \"k\":1, 2:'c' }; out(a[3][0], h.k);", "switch ( 3 ) { case 1: out(1); break; case 3: out(3); default: out(0); }", "enum { A, B = 5, C } out(A + B * C);", "var i = 0; do { ++i; } while ( i < 3 ); while ( i ) { i -= 1; } out(i);", "var h = { 1, 2 }; for ( var v : h ) { out(v); } for ( var k, var v : h ) { out(k, v); }",
	"goto end; out(1); end: out(2);", "var s; { s = 1; } if ( !s || s && 1 ) out(s); /* c */ // d\n out(-s, ~s, s++, --s);", "struct T { var q = 1; }; var t = new T[] { {2}, {3} }; t[0].q += 4; out(t[1].q, t._count);", "var x = yield(1, 2); out(x, math::abs(-2), ::x); function g() { return ::x; } g();", "var a = { 5:6 }; a._remove(5); out(a._exists(5), a._hash != 0, (int)2.5, (float)3);" };
enum { NCORP = sizeof(corpus) / sizeof(corpus[0]) };
static std::vector<std::string> lexed(const std::string& s) { std::vector<std::string> t; size_t i = 0; while (i < s.size()) { size_t j = i; if (isspace((unsigned char)s[i])) { ++i; continue; } if (isalnum((unsigned char)s[i]) || s[i] == '_') { while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_' || (s[j] == '.' && isdigit((unsigned char)s[i])))) ++j; } else if (s[i] == '"' || s[i] == '\'') { ++j; while (j < s.size() && s[j] != s[i]) ++j; ++j; } else if (s.compare(i, 2, "/*") == 0) j = s.find("*/", i) + 2; else if (s.compare(i, 2, "//") == 0) { j = s.find('\n', i) + 1; } else { static const char* two[] = { "++", "--", "+=", "-=", "==", "!=", "&&", "||", "::" }; j = i + 1; for (auto w : two) if (s.compare(i, 2, w) == 0) j = i + 2; } t.push_back(s.substr(i, j - i)); i = j; } return t; }
static std::string joined(const std::vector<std::string>& t) { std::string s; for (auto& x : t) s += x + (x[0] == '/' ? "\n" : " "); return s; }
static void truncated(Ctx& c) { g_run = true; int p = c.choose(NCORP), fl = c.choose(3), end = c.choose(2); c.split(); std::string s = corpus[p]; static const int flags[] = { 1, 7, 9 }; for (size_t n = 0; n <= s.size(); ++n) { std::string q = end ? s.substr(s.size() - n) : s.substr(0, n); c.id(sf("trunc:%d:%d:%d:%d", p, fl, end, (int)n)); int e = judge(c, q, flags[fl]); if (n == s.size() && e) c.fail("corpus", sf("program %d does not compile: %d", p, e), s); c.state(hashs(q)); } c.trace(); }
static void edited(Ctx& c) { g_run = true; int p = c.choose(NCORP); std::vector<std::string> t = lexed(corpus[p]); int at = c.choose((int)t.size() + 1), op = c.choose(4); c.split(); if (op != 1 && at == (int)t.size()) throw Skip();
	for (int k = 0; k < (op == 0 || op == 3 ? 1 : NT); ++k) { std::vector<std::string> u = t; if (op == 0) u.erase(u.begin() + at); else if (op == 1) u.insert(u.begin() + at, tok[k]); else if (op == 2) u[at] = tok[k]; else { if (at + 1 >= (int)u.size()) throw Skip(); std::swap(u[at], u[at + 1]); } std::string s = joined(u); c.id(sf("edit:%d:%d:%d:%d", p, at, op, k)); judge(c, s); c.state(hashs(s)); } c.trace(); }
static void twice(Ctx& c) { if (!c.thorough()) { g_run = true; int p = c.choose(NCORP); std::vector<std::string> t = lexed(corpus[p]); int a = c.choose((int)t.size()), b = c.choose((int)t.size()); c.split(); if (b <= a) throw Skip(); std::vector<std::string> u = t; u.erase(u.begin() + b); u.erase(u.begin() + a); std::string s = joined(u); c.id(sf("del2:%d:%d:%d", p, a, b)); judge(c, s); c.state(hashs(s)); c.trace(); return; }
	g_run = true; int p = c.choose(NCORP); std::vector<std::string> t = lexed(corpus[p]); int a = c.choose((int)t.size()), k = c.choose(NT); c.split(); for (size_t b = a + 1; b < t.size(); ++b) { std::vector<std::string> u = t; u[a] = tok[k]; u.erase(u.begin() + b); std::string s = joined(u); c.id(sf("edit2:%d:%d:%d:%d", p, a, k, (int)b)); judge(c, s); c.state(hashs(s)); } c.trace(); }
static void mutated(Ctx& c) { g_run = true; int p = c.choose(NCORP); std::string s = corpus[p]; int at = c.choose((int)s.size()); c.split(); for (int v = 0; v < 256; ++v) { if (!c.thorough() && v >= 128 && v < 255) continue; std::string m = s; m[at] = (char)v; c.id(sf("byte:%d:%d:%d", p, at, v)); judge(c, m); c.state(hashs(m)); } c.trace(); }
// sizes around the limits of the bytecode: right, or a compile error
static std::string rep(int n, const std::function<std::string(int)>& f, const char* sep = "") { std::string s; for (int i = 0; i < n; ++i) { if (i) s += sep; s += f(i); } return s; }
static void limits(Ctx& c) { static const int sz[] = { 1, 2, 3, 30, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 253, 254, 255, 256, 257, 300, 511, 512, 513 }; static const int big[] = { 16383, 16384, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537 }; static const int mid[] = { 250, 500, 1000, 1500, 2000, 2500, 2730, 2731, 3000, 3500, 3640, 4000, 4100, 4500 };
	int k = c.choose(22); int q = c.choose(k < 13 ? 23 : k < 15 ? 10 : 14); static const int flg[] = { -1, 2, 6, 8 }; int fl = k == 14 ? -1 : k >= 13 && !c.thorough() ? (c.choose(2) ? 6 : -1) : flg[c.choose(4)]; c.split(); int n = k < 13 ? sz[q] : k < 15 ? big[q] : mid[q]; std::string s, want; auto I = [](int i) { return sf("%d", i); };
	switch (k) {
	case 0: s = rep(n, [](int i) { return sf("var g%d = %d; ", i, i); }) + sf("out(g0, g%d);", n - 1); want = sf("0 %d;", n - 1); break;
	case 1: s = rep(n, [](int i) { return sf("function f%d(x) { return x + %d; } ", i, i); }) + sf("out(f0(1), f%d(1));", n - 1); want = sf("1 %d;", n); break;
	case 2: s = "function q() { " + rep(n, [](int i) { return sf("var g%d = %d; ", i, i); }) + sf("out(g0, g%d); } q();", n - 1); want = sf("0 %d;", n - 1); break;
	case 3: s = "function q(" + rep(n, [](int i) { return sf("a%d", i); }, ", ") + sf(") { out(a0, a%d); } q(", n - 1) + rep(n, I, ", ") + ");"; want = sf("0 %d;", n - 1); break;
	case 4: s = "out(" + rep(n, I, ", ") + ");"; want = rep(n, I, " ") + ";"; break;
	case 5: s = "struct S { " + rep(n, [](int i) { return sf("var g%d = %d; ", i, i); }) + sf("}; var s = new S(); out(s.g0, s.g%d);", n - 1); want = sf("0 %d;", n - 1); break;
	case 6: s = sf("switch ( %d ) { ", n - 1) + rep(n, [](int i) { return sf("case %d: out(%d); break; ", i, i); }) + "default: out(-1); }"; want = sf("%d;", n - 1); break;
	case 7: s = sf("switch ( \"c%d\" ) { ", n - 1) + rep(n, [](int i) { return sf("case \"c%d\": out(%d); break; ", i, i); }) + "}"; want = sf("%d;", n - 1); break;
	case 8: s = rep(n, [](int) { return std::string("if ( 1 ) { "); }) + "out(5); " + rep(n, [](int) { return std::string("} "); }); want = "5;"; break;
	case 9: s = "var a = 1; out(" + rep(n, [](int) { return std::string("(a + "); }) + "a" + rep(n, [](int) { return std::string(")"); }) + ");"; want = sf("%d;", n + 1); break;
	case 10: s = "enum { " + rep(n, [](int i) { return sf("E%d", i); }, ", ") + " } " + sf("out(E0, E%d);", n - 1); want = sf("0 %d;", n - 1); break;
	case 11: s = "struct S { " + rep(n, [](int i) { return sf("var g%d; ", i); }) + "}; var s = new S() { " + rep(n, I, ", ") + sf(" }; out(s.g0, s.g%d);", n - 1); want = sf("0 %d;", n - 1); break;
	case 12: s = "var h = { " + rep(n, [](int i) { return sf("\"k%d\":%d", i, i); }, ", ") + sf(" }; out(h._count, h.k%d);", n - 1); want = sf("%d %d;", n, n - 1); break;
	case 13: s = "var s = \"" + std::string(n, 'x') + "\"; out(s._count, 7);"; want = sf("%d 7;", n); break;
	case 14: s = "var s[] = { " + rep(n, [](int i) { return sf("%d", i % 10); }, ",") + sf(" }; out(s._count, s[%d]);", n - 1); want = sf("%d %d;", n, (n - 1) % 10); break;
	case 15: s = "var a = 0; " + rep(n, [](int) { return std::string("a = a + 1000; "); }) + "out(a); function f() { return 5; } out(f());"; want = sf("%d;5;", n * 1000); break;
	case 16: s = "function g(a) { " + rep(n, [](int) { return std::string("a = a + 1000; "); }) + " return a; } function h() { return 6; } out(h()); out(g(1));"; want = sf("6;%d;", n * 1000 + 1); break;
	case 17: s = "var a = 0; for ( var i = 0; i < 2; ++i ) { " + rep(n, [](int) { return std::string("a = a + 1000; "); }) + "} out(a);"; want = sf("%d;", n * 2000); break;
	case 18: s = "var a = 0; if ( a ) { " + rep(n, [](int) { return std::string("a = a + 1000; "); }) + "} else { out(1); } out(a);"; want = "1;0;"; break;
	case 19: s = "var a = 0; switch ( 2 ) { case 1: " + rep(n, [](int) { return std::string("a = a + 1000; "); }) + "break; case 2: out(2); break; default: out(3); } out(a);"; want = "2;0;"; break;
	case 20: s = "var a = 0; switch ( 9 ) { case 1: " + rep(n, [](int) { return std::string("a = a + 1000; "); }) + "break; default: out(3); break; case 500: out(2); break; } out(a);"; want = "3;0;"; break;
	case 21: s = "var a = 0; goto over; " + rep(n, [](int) { return std::string("a = a + 1000; "); }) + "over: out(a);"; want = "0;"; break;
	}
	if (k == 14 && n > 32768 && n != 65536 && c.tier != "thorough") throw Skip(); if (k == 14) c.slow();
	c.id(sf("limit:%d:%d:%d", k, n, fl)); c.note(s.substr(0, 300)); wr::RunOpt o; if (fl >= 0) o.flags = fl; o.stack = 1200; o.libs = false; std::string got = wr::runScript(s, o); c.transition(); c.trace(); c.state(hashs(got)); bool err = got.compare(0, 7, "COMPILE") == 0; bool small = (k < 13 && n <= 129) || (k == 13 && n <= 65535) || (k == 14 && n <= 4096) || (k >= 15 && n <= 2500); if (k == 8 && n > 64) small = false; if (fl == 2 || fl == 6) small = (k < 13 && n <= 65);
	if (got != want && (!err || small)) c.fail(sf("limit:%d", k), sf("size %d: ", n) + got.substr(0, 200) + " instead of " + want.substr(0, 100), s.substr(0, 2000)); }
MC_MAIN({ "sequences", sequences, false }, { "bytes", bytes, false }, { "truncated", truncated, false }, { "edited", edited, false }, { "twice", twice, false }, { "mutated", mutated, false }, { "limits", limits, false })
