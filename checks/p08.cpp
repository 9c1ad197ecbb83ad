// P08: time slicing is invisible. Every program of the alphabet is run unsliced and then under every schedule of forced yields of
// the bound (all uniform slice lengths; every single and every pair of preemption points; forced yields from every host call), alone
// or with other contexts of the state running in between. Also: every kind of loop can be preempted (no slice runs forever).
#include "wr.h"
using namespace mc;
static long g_forceAt = -1, g_calls; static WRState* g_fw;
static void cbOut8(WRContext* c, const WRValue* a, const int n, WRValue& r, void* u) { wr::cbOut(c, a, n, r, u); if (g_forceAt >= 0 && g_calls++ == g_forceAt) wr_forceYield(g_fw); }
static wr::Bytes *g_disturb, *g_imp;
static void cbBC(WRContext* c, const WRValue* a, const int n, WRValue& r, void*) { wr_makeString(c, &r, (char*)g_imp->p, g_imp->n); }
static void prep() { if (g_disturb) return; g_disturb = new wr::Bytes; wr::compile("var a = { 1, \"x\" + 2 }; var g = 77; function f(n) { if ( n > 0 ) { return f(n - 1) + 1; } return \"d\" + g; } var i; for ( i = 0; i < 3; ++i ) { f(i); g = f(4); }", *g_disturb);
	g_imp = new wr::Bytes; wr::compile("var ig = 5; function imp(z) { var i; var s = 0; for ( i = 0; i < z; ++i ) { s = s + i; } ig = ig + 1; return s; } struct IS { var q = imp(3); };", *g_imp, WR_INCLUDE_GLOBALS); }
static WRState* mkState(int stack) { WRState* w = wr_newState(stack); wr_loadAllLibs(w); wr_registerFunction(w, "out", cbOut8); wr_registerFunction(w, "bc", cbBC); wr_setAllocatedMemoryGCHint(w, 60); return w; }
struct Res { std::string out; long yields; bool over; };
// runs the program under a schedule: slices[k] branches before the k-th forced yield, then `rest` (0: to the end)
static Res go(const wr::Bytes& b, const std::vector<int>& slices, int rest, int disturb, int stack = 128) {
	long live0 = wr::g_live; Res r; r.yields = 0; r.over = false; WRState* w = mkState(stack); g_fw = w; g_calls = 0; wr::g_out.clear(); size_t k = 0; int expl = 0;
	auto next = [&] { int n = k < slices.size() ? slices[k] : rest; ++k; wr_setInstructionsPerSlice(w, n); return n; };
	int n = next(); WRContext* c = wr_run(w, b.p, b.n); WRValue *args, *ret; int argn;
	while (c && !wr_getLastError(w) && wr_getYieldInfo(c, &args, &argn, &ret)) {
		if (ret) { wr::g_out += "Y"; for (int i = 0; i < argn; ++i) wr::g_out += wr::render(args[i]) + ","; wr::g_out += ";"; wr_makeInt(ret, 100 + expl++); }
		else { ++r.yields; if (argn) r.out += "!ARGS"; if (n && g_forceAt < 0 && wr_slicesUsedLastCall(w) != n) r.out += sf("!USED%d/%d", wr_slicesUsedLastCall(w), n); }
		if (r.yields > 3000 || expl > 50) { r.over = true; break; }
		if (disturb) { std::string keep = wr::g_out; long f = g_forceAt; g_forceAt = -1; wr_setInstructionsPerSlice(w, 0); WRContext* d = wr_run(w, g_disturb->p, g_disturb->n); if (!d) r.out += "!DISTURB"; else if (disturb == 1) wr_destroyContext(d); wr::g_out = keep; g_forceAt = f; }
		if (!ret) n = next(); else wr_setInstructionsPerSlice(w, n); // an explicit yield starts a slice of the same length
		wr_continue(c);
	}
	r.out = wr::g_out + r.out; if (wr_getLastError(w)) r.out += sf("!E%d", wr_getLastError(w)); if (!c) r.out += "!NOCTX"; if (r.over) r.out += "!OVER";
	else if (c && !wr_getLastError(w)) { wr_setInstructionsPerSlice(w, 0); WRValue v; wr_makeInt(&v, 3); WRValue* q = wr_callFunction(c, "sum", &v, 1); r.out += "|" + (q ? wr::render(*q) : std::string("none")); }
	wr_destroyState(w); if (wr::g_live != live0) r.out += sf("!LEAK%ld", wr::g_live - live0); return r;
}
static const char* PRE = "struct S { var m; var n = 3; };\nstruct T(p) { var q; for ( q = 0; q < p; ++q ) { } var r = \"r\" + q; };\nvar g = 0; var h = 0; var ga = 1; var gb = 4;\n"
	"function sum(n) { var s = 0; var i; for ( i = 0; i <= n; ++i ) { s = s + i; } return s; }\nfunction fib(n) { if ( n < 2 ) { return n; } return fib(n - 1) + fib(n - 2); }\nfunction cat(n) { var s = \"\"; while ( n > 0 ) { s = s + n; n = n - 1; } return s; }\n"
	"function pick(x) { switch ( x ) { case 0: { return \"zero\"; } case 1: { return \"one\"; } case \"s\": { return 2; } default: { return x; } } }\nfunction arr(n) { var a; a = {}; array::clear(a); for ( var i = 0; i < n; ++i ) { a[i] = cat(i); } return a; }\nfunction two(x, y) { return x + \"/\" + y; }\nfunction cmp(x, y) { if ( x < y ) { return -1; } else if ( x > y ) { return 1; } return 0; }\n";
static const char* ops[] = {
	"for ( var $i = 0; $i < 3; ++$i ) { out($i); } ", "a = 0; while ( a < 3 ) { a = a + 1; b = b + a; } ", "a = 3; do { a = a - 1; out(a); } while ( a ); ", "a = 0; do { ++a; } while ( a < 3 ); ", "a = sum(3) + sum(2); ", "a = fib(4); ", "a = cat(3) + cat(2); ",
	"a = two(cat(2), cat(3)); ", "a = arr(3); for ( var $e : a ) { out($e); } ", "a = { \"k\": cat(2), 5: 6, 7: \"v\" }; g = 0; for ( var $k, var $e : a ) { g = g + 1; } ", "for ( var $i = 0; $i < 3; ++$i ) { a = pick($i); out(a); } ", "out(pick(\"s\")); ", "a = new S(); a.m = cat(2); if ( a.n == 3 ) { a.n = sum(a.n); } out(a.n); ", "a = new T(3); out(a.r); ",
	"for ( var $i = 0; $i < 4; ++$i ) { if ( $i == 1 ) { continue; } if ( $i == 3 ) { break; } out($i); } ", "a = 0; $l: a = a + 1; if ( a < 3 ) { goto $l; } ", "if ( ga < gb && sum(1) ) { a = \"t\"; } else { a = \"f\"; } ", "if ( ga > gb || !b ) { a = \"t\"; } else { a = \"f\"; } ", "a = { cat(1), sum(2), cat(2) }; a[1] = a[0] + cat(1); out(a[1]); ", "a = yield(cat(2), 5) + sum(2); ",
	"while ( ga <= gb ) { ga = ga + 1; if ( ga != gb ) { continue; } b = ga; } ga = 1; ", "for ( var $i = 0; $i < 2; ++$i ) { for ( var $j = 2; $j >= 0; --$j ) { g = $i * 3 + $j; h = h + g; } } ", "a = sys::importByteCode(bc()); b = imp(4) + imp(2); ", "out(cmp(1, 2) + cmp(ga, gb) * 10 + cmp(gb, 1) * 100 + cmp(b, b)); ", "g = arr(2); a = \"\"; for ( var $k, var $e : g ) { a = a + $k + $e; g = arr(3); } ", "a = std::deserialize(std::serialize(arr(2))); out(a); ",
	"a = 5; a -= sum(2); b = (a == 2); if ( b ) { a = cat(2); } ", "for (;;) { b = b + 1; if ( b > 3 ) { break; } } ", "a = two(two(cat(1), sum(1)), two(fib(2), cat(1))); ", "h = { 1, 2 }; for ( var $e : h ) { out($e); for ( var $i = 0; $i < 2; ++$i ) { g = $e + $i; } out(g); } " };
enum { NOPS = sizeof(ops) / sizeof(ops[0]) };
static std::string inst(std::string t, int n) { size_t p; while ((p = t.find('$')) != std::string::npos) t.replace(p, 1, sf("v%d", n)); return t; }
static std::string program(int fn, const std::string& body) { std::string s = PRE; return fn ? s + "function body() { var a = 0; var b = 0; " + body + "out(a); out(b); return a; }\nout(body()); out(g); out(h);\n" : s + "var a = 0; var b = 0; " + body + "out(a); out(b); out(g); out(h);\n"; }
static void explore(Ctx& c, const std::string& src, const std::string& key, int pre, int maxT) {
	prep(); c.id(key); c.note(src); wr::Bytes b; if (wr::compile(src, b)) { c.fail("compile:" + key, sf("does not compile: %d", b.err), src); return; }
	g_forceAt = -1; Res base = go(b, {}, 0, 0); c.outcome(base.out); if (base.out.find('!') != std::string::npos || base.yields) { c.fail("base:" + key, "unsliced: " + base.out.substr(0, 300), src); return; }
	auto test = [&](const std::vector<int>& s, int rest, int dist, const std::string& name) { c.note(src + "\n// schedule " + name); Res r = go(b, s, rest, dist); c.transition(r.yields + 1); c.trace(); c.state(hashs(r.out) ^ mix(hashs(name)));
		if (r.out != base.out) { c.fail("slice:" + key, "schedule " + name + ": got <" + r.out.substr(0, 300) + "> want <" + base.out.substr(0, 300) + ">", src); return -1L; } return r.yields; };
	long T = test({}, 1, 0, "every branch"); if (T < 0) return; if (T > maxT) T = maxT;
	if (test({}, 1, 1, "every branch, disturbed") < 0 || test({}, 1, 2, "every branch, disturbed by contexts that stay") < 0) return;
	for (int n = 2; n <= T + 1; ++n) if (test({}, n, n & 1, sf("uniform %d", n)) < 0) return;
	for (int i = 1; i <= T; ++i) { for (int d = 0; d < 2; ++d) if (test({ i }, 0, d, sf("once at %d%s", i, d ? ", disturbed" : "")) < 0) return; if (pre >= 2) for (int j = 1; i + j <= T; ++j) if (test({ i, j }, 0, (i + j) & 1, sf("at %d and %d", i, i + j)) < 0) return; }
	for (g_forceAt = 0; g_forceAt < 12; ++g_forceAt) { int bad = test({}, 0, 1, sf("forced by the host in its call %ld", g_forceAt)) < 0; if (!bad && g_forceAt < 4) bad = test({}, 3, 0, sf("slices of 3 and forced in host call %ld", g_forceAt)) < 0; if (bad) { g_forceAt = -1; return; } } g_forceAt = -1;
}
static void single(Ctx& c) { int fn = c.choose(2), o = c.choose(NOPS); c.split(); explore(c, program(fn, inst(ops[o], 1)), sf("one:%d:%d", fn, o), 2, c.thorough() ? 120 : 40); }
static void pairs(Ctx& c) { int fn = c.choose(2), o = c.choose(NOPS), p = c.choose(NOPS); c.split(); if (strstr(ops[o], "importByteCode") && o == p) throw Skip(); explore(c, program(fn, inst(ops[o], 1) + inst(ops[p], 2)), sf("two:%d:%d:%d", fn, o, p), c.thorough() ? 2 : 1, c.thorough() ? 60 : 12); }
// two contexts of one state, every way to alternate between them with bounded slice lengths
static void inter(Ctx& c) {
	int x = c.choose(NOPS), y = c.choose(NOPS), fn = c.choose(2); c.split(); if (strstr(ops[x], "importByteCode") || strstr(ops[y], "importByteCode") || strstr(ops[x], "yield") || strstr(ops[y], "yield")) throw Skip(); prep();
	int D = c.thorough() ? 6 : 4, M = c.thorough() ? 4 : 3; std::string sx = program(fn, inst(ops[x], 1)), sy = program(!fn, inst(ops[y], 2)), key = sf("inter:%d:%d:%d", x, y, fn); c.id(key); c.note(sx + "\n//////// other context:\n" + sy);
	wr::Bytes bx, by; if (wr::compile(sx, bx) || wr::compile(sy, by)) { c.fail("compile:" + key, "does not compile", sx + sy); return; }
	g_forceAt = -1; std::string wx = go(bx, {}, 0, 0).out, wy = go(by, {}, 0, 0).out; wx = wx.substr(0, wx.rfind('|')); wy = wy.substr(0, wy.rfind('|')); c.outcome(wx + wy);
	long total = 1; for (int i = 0; i < D; ++i) total *= M;
	for (long m = 0; m < total; ++m) { // slice lengths of the alternating turns, the last is repeated to the end
		std::vector<int> sl; long q = m; for (int i = 0; i < D; ++i) { sl.push_back((int)(q % M) * 2 + 1); q /= M; }
		long live0 = wr::g_live; WRState* w = mkState(128); std::string ox, oy; WRContext *A = 0, *B = 0; bool da = false, db = false, sa = false, sb = false; int err = 0, turns = 0;
		for (size_t k = 0; !(da && db); ++k) {
			int n = k < sl.size() ? sl[k] : sl.back(); wr_setInstructionsPerSlice(w, n); wr::g_out.clear(); bool first = (k & 1) == 0; if (first ? da : db) continue; if (++turns > 500) { err = 999; break; }
			WRContext*& X = first ? A : B; bool& st = first ? sa : sb; bool& dn = first ? da : db;
			if (!st) { st = true; X = wr_run(w, first ? bx.p : by.p, first ? bx.n : by.n); } else wr_continue(X);
			(first ? ox : oy) += wr::g_out; if ((err = wr_getLastError(w))) break; if (!X || !wr_getYieldInfo(X)) dn = true;
		}
		wr_destroyState(w); c.transition(turns); c.trace(); c.state(mix(hashs(ox)) ^ hashs(oy) ^ turns);
		if (err || ox != wx || oy != wy) { std::string s; for (int v : sl) s += sf("%d ", v); c.fail("inter:" + key, sf("turns %s: E%d got <", s.c_str(), err) + ox + "> and <" + oy + "> want <" + wx + "> and <" + wy + ">", sx + "\n////////\n" + sy); return; }
		if (wr::g_live != live0) { c.fail("leak:" + key, "leak", sx); return; }
	}
}
// every kind of endless loop is preempted
static void endless(Ctx& c) {
	static const char* cond[] = { "1", "a", "!z", "a < b", "a <= b", "b > a", "b >= a", "a != b", "a == a", "ga < gb", "ga <= gb", "gb > ga", "gb >= ga", "ga != gb", "ga == ga", "a < gb", "gb > a", "a == ga", "ga == a", "a < 5", "ga < 5", "5 > a", "5 > ga", "a == 1", "ga == 1", "a != 2", "ga != 2", "a <= 300", "ga >= -300", "a < 70000", "a && b", "ga || z", "a && gb > 1", "s == \"x\"", "f < 2.5", "gf < 2.5", "arr[0] == 1", "h.k", "one()", "one() == a", "a < b && ga < gb", "!(a > b)" };
	static const char* pads[] = { "", "out1();", "g = g + 1; z = 0;" };
	int k = c.choose(6), cd = c.choose(sizeof(cond) / sizeof(cond[0])), fn = c.choose(2), pad = c.choose(4), n = c.choose(3); c.split(); std::string C = cond[cd], P = pad < 3 ? pads[pad] : ""; if (pad == 3) for (int i = 0; i < 40; ++i) P += "g = g * 3 + b - 7; "; // a body too long for the short jumps
	std::string loop;
	switch (k) { case 0: loop = "while ( " + C + " ) { " + P + " }"; break; case 1: loop = "do { " + P + " } while ( " + C + " );"; break; case 2: loop = "for ( ; " + C + " ; ) { " + P + " }"; break; case 3: loop = "top: " + P + " if ( " + C + " ) { goto top; }"; break; case 4: loop = "for (;;) { " + P + " if ( " + C + " ) { continue; } break; }"; break;
		default: loop = "while ( 1 ) { " + P + " if ( " + C + " ) { } else { break; } }"; }
	std::string src = "var ga = 1; var gb = 4; var g = 0; var gf = 1.5; function one() { return 1; } function out1() { return 0; }\n"; std::string vars = "var a = 1; var b = 4; var z = 0; var s = \"x\"; var f = 1.5; var arr; arr = { 1 }; var h; h = { \"k\": 1 }; h.k = 1; ";
	src += fn ? "function body() { " + vars + loop + " }\nbody();\n" : vars + loop + "\n"; std::string key = sf("endless:%d:%d:%d:%d:%d", k, cd, fn, pad, n); c.id(key); c.note(src);
	wr::Bytes b; if (wr::compile(src, b)) { c.fail("compile:" + key, sf("does not compile: %d", b.err), src); return; }
	WRState* w = mkState(64); static const int sl[] = { 1, 2, 7 }; wr_setInstructionsPerSlice(w, sl[n]); WRContext* x = wr_run(w, b.p, b.n); int got = 0;
	for (int i = 0; i < 12; ++i) { if (!x || wr_getLastError(w) || !wr_getYieldInfo(x)) break; ++got; wr_continue(x); c.transition(); } c.trace(); c.state(hashs(key));
	if (got != 12) c.fail("endless:" + key, sf("yielded %d of 12 times, E%d", got, wr_getLastError(w)), src); wr_destroyState(w); c.outcome(sf("%d", got));
}
MC_MAIN({ "single", single, false }, { "endless", endless, false }, { "inter", inter, false }, { "pairs", pairs, false })
