// P11: stack overflow protection (WRENCH_PROTECT_STACK_FROM_OVERFLOW). Every program of the alphabet is run with every stack size up
// to one that suffices: each run either behaves exactly as with a large stack or ends with WR_ERR_stack_overflow after a prefix of the
// output; the stack is the last thing in its allocation, so AddressSanitizer sees any access beyond it.
#include "frag.h"
using namespace mc;
static void prep() { if (g_ok) return; g_ok = new wr::Bytes; wr::compile("out(3);", *g_ok); g_imp = new wr::Bytes; wr::compile("var iq = 5; function imp(x, y) { var t = x; var u = y; return \"i\" + t + u; } function irec(n) { if ( n > 0 ) { return irec(n - 1) + 1; } return 0; } struct IS { var q = imp(1, 2); };", *g_imp); }
struct Res { std::string out; int err; long yields; };
static Res go(const wr::Bytes& b, int stack, int slice, bool host) {
	long live0 = wr::g_live; Res r; r.yields = 0; WRState* w = wr_newState(stack); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); wr_registerFunction(w, "bc", cbBC); wr_registerFunction(w, "many", cbMany); wr_setAllocatedMemoryGCHint(w, 40); wr_setInstructionsPerSlice(w, slice); wr::g_out.clear();
	WRContext* c = wr_run(w, b.p, b.n); r.err = wr_getLastError(w); WRValue* ret; while (c && !r.err && wr_getYieldInfo(c, 0, 0, &ret)) { if (ret) wr_makeInt(ret, 11); if (++r.yields > 2000) break; wr_continue(c); r.err = wr_getLastError(w); }
	if (host && c && !r.err) { WRValue v[4]; for (int i = 0; i < 4; ++i) wr_makeInt(v + i, i + 1); WRValue* q = wr_callFunction(c, "two", v, 2); r.err = wr_getLastError(w); wr::g_out += "|" + (q ? wr::render(*q) : std::string(""));
		if (!r.err) { q = wr_callFunction(c, "five", v, 4); r.err = wr_getLastError(w); wr::g_out += "|" + (q ? wr::render(*q) : std::string("")); } if (!r.err) { q = wr_callFunction(c, "none", v, 4); r.err = wr_getLastError(w); wr::g_out += "|" + (q ? wr::render(*q) : std::string("")); }
		if (!r.err) { q = wr_callFunction(c, "math::pow", v, 2); r.err = wr_getLastError(w); wr::g_out += "|" + (q ? wr::render(*q) : std::string("")); } if (r.err && !wr::g_out.empty() && wr::g_out.back() == '|') wr::g_out.pop_back(); }
	r.out = wr::g_out; wr::g_out.clear();
	if (r.err && stack >= 8) { WRContext* d = wr_run(w, g_ok->p, g_ok->n); if (!d || wr::g_out != "3;") r.out += "!AFTER"; wr::g_out.clear(); }
	wr_destroyState(w); if (wr::g_live != live0) r.out += sf("!LEAK%ld", wr::g_live - live0); return r;
}
static void explore(Ctx& c, const std::string& src, const std::string& key, bool host) {
	prep(); c.id(key); c.note(src); wr::Bytes b; if (wr::compile(src, b)) { c.fail("compile:" + key, sf("does not compile: %d", b.err), src); return; }
	Res base = go(b, 300, 0, host); c.outcome(base.out); if (base.err) { c.fail("base:" + key, sf("with a large stack: E%d ", base.err) + base.out, src); return; }
	int fits = 0; for (int s = 2; fits < 6 && s < 200; ++s) for (int sl = 0; sl < 2; ++sl) {
		c.note(src + sf("\n// stack of %d, %s", s, sl ? "one branch per slice" : "unsliced")); Res r = go(b, s, sl, host); c.transition(r.yields + 1); c.trace(); c.state(hashs(r.out) ^ mix(r.err * 1000 + s));
		if (!r.err) { if (r.out != base.out) { c.fail("differs:" + key, sf("stack %d: got <", s) + r.out + "> want <" + base.out + ">", src); return; } if (!sl) ++fits; }
		else if (r.err != WR_ERR_stack_overflow) { c.fail("error:" + key, sf("stack %d: E%d ", s, r.err) + r.out, src); return; }
		else { if (fits && !sl) { c.fail("monotone:" + key, sf("fits in %d, overflows %d", s - 1, s), src); return; } if (base.out.compare(0, r.out.size(), r.out)) { c.fail("prefix:" + key, sf("stack %d: <", s) + r.out + "> is no prefix of <" + base.out + ">", src); return; } }
	}
	if (fits < 6) c.fail("never:" + key, "never fits", src);
}
static std::string program(int fn, const std::string& body) { std::string s = PRE; return fn ? s + "function body(z) { var a = 0; var b = z; " + body + "out(a); out(b); return a; }\nbody(); body(2);\n" : s + "var a = 0; var b = 0; " + body + "out(a); out(b);\n"; }
static void single(Ctx& c) { int fn = c.choose(2), host = c.choose(2), o = c.choose(NOPS); c.split(); explore(c, program(fn, inst(ops[o], 1)), sf("one:%d:%d:%d", fn, host, o), host); }
static void pairs(Ctx& c) { int fn = c.choose(2), o = c.choose(NOPS), p = c.choose(NOPS); c.split(); if (strstr(ops[o], "importByteCode") && strstr(ops[p], "importByteCode")) throw Skip(); if (!c.thorough() && ((o + p) & 3)) throw Skip(); explore(c, program(fn, inst(ops[o], 1) + inst(ops[p], 2)), sf("two:%d:%d:%d", fn, o, p), false); }
// expressions nested to every depth, in every operand position
static void nest(Ctx& c) {
	static const char* L[] = { "id(", "(ga + ", "(b - ", "(1 * ", "two(1, ", "many(1, 2, ", "five(1, 2, ", "(\"s\" + ", "math::abs(", "(b < ", "(2.5 + ", "yield(1, ", "(1000 - ", "{ 1, 2, ", "(70000 + ", "math::pow(1, " }; static const char* R[] = { ")", ")", ")", ")", ")", ")", ")", ")", ")", ")", ")", ")", ")", " }", ")", ")" }; static const char* leaf[] = { "3", "none()", "many()", "\"x\"", "ga", "ga++", "h[1]", "g2[\"k\"]", "(float)b", "rec(1)", "!gb", "70000", "1.5", "h._count", "st.n", "new S()" };
	int fn = c.choose(2), x = c.choose(16), y = c.choose(16), lf = c.choose(15), d = c.choose(c.thorough() ? 8 : 4); c.split(); if (x == 13 || y == 13) if (x != 13 || y != 13) throw Skip(); std::string e; for (int i = 0; i < d; ++i) e += i & 1 ? L[y] : L[x]; e += leaf[lf]; for (int i = d; i-- > 0;) e += i & 1 ? R[y] : R[x];
	if (x == 13 && d) e = "id(1); a = " + e; std::string key = sf("nest:%d:%d:%d:%d:%d", fn, x, y, lf, d); explore(c, program(fn, "var h; h = { 5, 6 }; var g2; g2 = { \"k\": 9 }; var st = new S(); a = " + e + "; "), key, false);
}
// the same push many times over: whatever instruction does it has to be checked
static void pushes(Ctx& c) {
	static const char* leaf[] = { "3", "300", "70000", "1.5", "\"x\"", "none()", "many()", "ga", "a", "ga++", "++a", "h[1]", "h[ga]", "h[a]", "k[0]", "k[a]", "k[ga]", "l.m", "h.m", "(float)a", "(int)ga", "!gb", "-a", "h._count", "k._count", "id(1)", "a + ga", "a + b", "ga + gb", "ga - a", "a < 5", "ga == gb", "a < ga", "5 < ga", "a + 1", "ga + 1", "a + 70000", "h[1] + 1", "math::abs(a)", "math::abs()", "h[0][0]", "h[\"k\"]", "a && b", "ga || a", "(1 + 2)", "hash::exists(l, 3)", "std::rand(1)", "sys::isFunction(\"id\")", "a++", "a--", "~ga", "h[70000]", "a[300]", "ga[1]", "yield(1)", "two(1, 2)", "WRC", "str::strlen(\"abc\")", "a != b", "a == \"s\"", "k[1]", "k[ga + 1]" };
	int fn = c.choose(2), lf = c.choose(sizeof(leaf) / sizeof(leaf[0])), n = c.choose(c.thorough() ? 24 : 12) + 1, lib = c.choose(3); c.split(); std::string L = leaf[lf]; if (L == "WRC") throw Skip();
	std::string e; for (int i = 0; i < n; ++i) e += (i ? ", " : "") + L; e = (lib == 0 ? "many(" : lib == 1 ? "math::pow(" : "five(") + e + ")"; if (lib == 2 && lf == 6) throw Skip();
	std::string s = PRE; s += "var k; k = { 1, 2 };\n"; if (fn) s += "function body() { var a = 1; var b = 0; var h; h = 0; var l; " + std::string("a = ") + e + "; return a; }\nbody();\n"; else s += "var a = 1; var b = 0; var h = 0; var l; a = " + e + ";\n";
	explore(c, s, sf("push:%d:%d:%d:%d", fn, lf, n, lib), false);
}
MC_MAIN({ "pushes", pushes, false }, { "single", single, false }, { "nest", nest, false }, { "pairs", pairs, false })
