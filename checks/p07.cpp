// P07: running out of memory ends a script gracefully (builds with WRENCH_HANDLE_MALLOC_FAIL). Every program of the alphabet is
// run with the allocator failing at every single allocation, and failing from every allocation on.
#include "wr.h"
using namespace mc;
static const char* PRE =
	"struct S { var m; var n = 3; };\nstruct T(p) { var q = p; var r = \"r\" + p; };\nvar g = 0;\n"
	"function mk(i) { return \"str\" + i; }\nfunction mka(i) { var t; t = { i, \"el\" + i }; return t; }\nfunction mkh(i) { var t; t = { \"k\": \"hv\" + i, 5: mka(i) }; return t; }\nfunction mks(i) { var t = new S(); t.m = \"sm\" + i; return t; }\n"
	"function id(x) { return x; }\nfunction rec(n) { if ( n <= 0 ) { return mk(0); } var l = mka(n); var r = rec(n - 1); return r + l[1]; }\nfunction deep(n) { if ( n > 0 ) { deep(n - 1); } }\n";
static const char* ops[] = {
	"a = \"s\" + 1; ", "a = mk(2) + mk(3); ", "a = { 1, \"x\", mk(2) }; ", "a = { \"k\": mk(1), 4: 5, mk(2): { 1, 2 } }; ", "a = new S(); a.m = mk(1); ", "a = new T(mk(1)); ", "a = new S(){ m = mk(3), n = { 1 } }; ",
	"a = {}; a[3] = mk(1); a[40] = 2; ", "array::clear(a); a[5] = 1; a[30] = mk(2); ", "hash::clear(a); for ( var j = 0; j < 30; ++j ) { a[j * 11] = j; } ", "hash::clear(a); a[\"x\"] = { 1 }; a[\"y\"] = mk(2); ", "a.foo = 5; ", "a[2] = 7; ", "a[\"s\"] = 7; ", "a[mk(1)] = mk(2); ",
	"array::clear(a); list::push(a, mk(1)); list::push_back(a, 2); array::insert(a, 1, 3); list::pop(a); ", "array::clear(a, 6); array::truncate(a, 2); array::remove(a, 0); ", "hash::clear(a); hash::add(a, mk(1), mk(2)); hash::remove(a, mk(2)); ",
	"a = str::concat(mk(1), mk(2)); ", "a = str::left(mk(1), 2); a = str::right(mk(2), 2); ", "a = str::sprintf(\"%s %d %f\", mk(1), 5, 1.5); ", "str::format(a, \"%d\", 5); ", "a = str::toupper(mk(1)); a = str::tolower(mk(2)); ", "a = str::mid(mk(1), 1, 2); a = str::substr(mk(4), 1); ", "a = str::trim(\"  x \"); a = str::trimleft(\" y\"); a = str::trimright(\"z \"); ", "a = str::insert(mk(1), mk(2), 1); ", "a = str::chr(mk(1), 's'); a = str::tol(\"12\"); ", "a = mk(1); str::trunc(a, 2); ",
	"a = std::serialize({ 1, \"two\", { \"k\": 3 } }); b = std::deserialize(a); ", "a = std::serialize(mk(1)); b = std::deserialize(a); ", "a = rec(3); ", "g = { mk(1), mk(2) }; for ( var e : g ) { out(e); } for ( var k2, var e2 : g ) { out(k2); } ", "a = mk(1); a += mk(2); a += 5; ", "switch ( mk(1) ) { case \"str1\": { a = mk(2); break; } default: { a = 0; } } ",
	"yield(mk(1), { 1 }); ", "a = id({ mk(1), { mk(2) } }); ", "msg::write(4, mk(1)); a = msg::read(4); ", "sys::importByteCode(bc()); a = imp(3); ", "a = host(1); ", "a = { 1 }; array::remove(a, 0); a = new S; a.n = mk(1); ", "a = new S[]{ { mk(1), 2 }, { 3, mk(4) } }; ",
	"a[1][2] = mk(5); ", "a = \"lit\"; b = a[1]; ", "deep(12); ", "b = (a == mk(1)); b = { a, a }; " };
enum { NOPS = sizeof(ops) / sizeof(ops[0]) };
static const char* inits[] = { "0", "mk(9)", "{ 7, 8 }", "{ 2: mk(1) }" };
static void cbHost(WRContext* c, const WRValue* a, const int n, WRValue& r, void*) { wr_makeString(c, &r, "from the host", 13); }
static wr::Bytes* okBC; static wr::Bytes* impBC;
static void cbBC(WRContext* c, const WRValue* a, const int n, WRValue& r, void*) { wr_makeString(c, &r, (char*)impBC->p, impBC->n); }
static std::string drive(WRState* w, const unsigned char* p, int n, int& err, bool& ok) {
	wr::g_out.clear(); WRContext* c = wr_run(w, p, n); err = wr_getLastError(w); int guard = 0;
	while (c && wr_getYieldInfo(c) && guard++ < 8) { wr::g_out += "Y;"; wr_continue(c); err = wr_getLastError(w); if (err) break; }
	ok = c != 0 && !err; std::string o = wr::g_out;
	if (c && !err) { WRValue v; wr_makeInt(&v, 3); WRValue* r = wr_callFunction(c, "rec", &v, 1); err = wr_getLastError(w); o += r ? wr::render(*r) : std::string(""); }
	if (c) wr_destroyContext(c);
	return o;
}
static void explore(Ctx& c, const std::string& src, const std::string& key) {
	c.id(key); c.note(src); wr::Bytes b; if (wr::compile(src, b)) { c.fail("compile:" + key, sf("does not compile: %d", b.err), src); return; }
	if (!okBC) { impBC = new wr::Bytes; wr::compile("var q1 = { 1, \"x\" }; function imp(z) { return \"i\" + z; }", *impBC); okBC = new wr::Bytes; wr::compile("var a = { 1, \"x\" + 2 }; function rec(n) { return \"r\" + n; } out(a);", *okBC); }
	std::string want, okWant; int werr; bool ok; long N = 0;
	for (int mode = 0; mode < 2; ++mode) for (long k = -1; k < N || k < 0; ++k) {
		// growth of the tables of the state while the libraries load is not part of a script: it happens before failures begin
		long base = wr::g_live; WRState* w = wr_newState(96); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); wr_registerFunction(w, "host", cbHost); wr_registerFunction(w, "bc", cbBC); wr_setAllocatedMemoryGCHint(w, mode ? 100 : 4000);
		c.note(src + sf("\n// allocation %ld fails%s", k, mode ? " and all later ones" : "")); wr::g_count = 0; wr::g_failAt = k; wr::g_failLen = mode ? -1 : 1; int err; std::string o = drive(w, b.p, b.n, err, ok); long used = wr::g_count; wr::g_failAt = -1;
		if (k < 0) { N = used; if (!mode) { want = o; werr = err; if (werr) { c.fail("base:" + key, sf("fails without fault: E%d ", err) + o, src); wr_destroyState(w); return; } c.outcome(o); } }
		else {
			c.transition(); c.trace(); c.state(hashs(o) ^ mix(err));
			if (err != WR_ERR_malloc_failed) { if (err || o != want) c.fail("err:" + key, sf("allocation %ld%s fails: error %d, output <", k, mode ? "+" : "", err) + o + "> of <" + want + ">", src); else if (true) c.fail("undetected:" + key, sf("allocation %ld%s fails: no error reported", k, mode ? "+" : ""), src); }
			else if (want.compare(0, o.size(), o)) c.fail("prefix:" + key, sf("allocation %ld%s fails: output <", k, mode ? "+" : "") + o + "> is not a beginning of <" + want + ">", src);
		}
		int e2; bool ok2; std::string o2 = drive(w, okBC->p, okBC->n, e2, ok2); if (e2 || o2 != "[1,\"x2\"];\"r3\"") c.fail("after:" + key, sf("after allocation %ld%s failed: the state no longer runs scripts (E%d ", k, mode ? "+" : "", e2) + o2 + ")", src);
		wr_destroyState(w); if (wr::g_live != base) c.fail("leak:" + key, sf("allocation %ld%s fails: %ld blocks leaked", k, mode ? "+" : "", wr::g_live - base), src);
		if (c.failed && !c.verbose) return;
	}
}
static std::string program(int fn, int t0, const std::string& body) {
	std::string s = PRE; return fn ? s + "var b = 0; function t() { var a = " + inits[t0] + "; " + body + "out(a); out(b); }\nt();\n" : s + "var b = 0; var a = " + inits[t0] + "; " + body + "out(a); out(b);\n";
}
// one context outlives the failure: the same function is called again on it and has to work
static void recall(Ctx& c) {
	int t0 = c.choose(4), o = c.choose(NOPS); c.split(); if (strstr(ops[o], "yield")) throw Skip(); // a host call can not yield into another
	std::string src = std::string(PRE) + "var b = 0; var h = 0; var keep = { 1, \"two\" };\nfunction t() { var a = " + inits[t0] + "; " + ops[o] + "h = { a, b, keep }; return h; }\nfunction chk() { out(keep); out(g); out(b); return keep; }\n", key = sf("recall:%d:%d", t0, o);
	c.id(key); c.note(src); wr::Bytes b; if (wr::compile(src, b)) { c.fail("compile:" + key, sf("does not compile: %d", b.err), src); return; }
	if (!impBC) { impBC = new wr::Bytes; wr::compile("var q1 = { 1, \"x\" }; function imp(z) { return \"i\" + z; }", *impBC); }
	std::string want; long N = 0;
	for (int mode = 0; mode < 2; ++mode) for (long k = -1; k < N || k < 0; ++k) {
		long base = wr::g_live; WRState* w = wr_newState(96); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); wr_registerFunction(w, "host", cbHost); wr_registerFunction(w, "bc", cbBC); wr_setAllocatedMemoryGCHint(w, mode ? 100 : 4000);
		c.note(src + sf("\n// t(): allocation %ld fails%s, then t() again and chk()", k, mode ? " and all later ones" : ""));
		WRContext* x = wr_run(w, b.p, b.n); if (!x) { c.fail("base:" + key, "does not run", src); wr_destroyState(w); return; }
		wr::g_out.clear(); wr::g_count = 0; wr::g_failAt = k; wr::g_failLen = mode ? -1 : 1; WRValue* r = wr_callFunction(x, "t"); int err = wr_getLastError(w); long used = wr::g_count; wr::g_failAt = -1;
		if (k < 0) { N = used; want = wr::g_out + (r ? wr::render(*r) : std::string("none")); if (err) { c.fail("base:" + key, sf("fails without fault: E%d", err), src); wr_destroyState(w); return; } }
		else { c.transition(); c.trace(); if (err != WR_ERR_malloc_failed) c.fail("err:" + key, sf("allocation %ld%s fails: error %d", k, mode ? "+" : "", err), src); }
		wr::g_out.clear(); r = wr_callFunction(x, "t"); err = wr_getLastError(w); std::string o2 = wr::g_out + (r ? wr::render(*r) : std::string("none")); c.state(hashs(o2));
		if (err || o2 != want) c.fail("again:" + key, sf("allocation %ld%s failed in t(); calling it again gives E%d ", k, mode ? "+" : "", err) + o2 + " instead of " + want, src);
		r = wr_callFunction(x, "chk"); std::string o3 = r ? wr::render(*r) : std::string("none"); if (o3 != "[1,\"two\"]") c.fail("kept:" + key, sf("allocation %ld%s failed in t(): an untouched global became ", k, mode ? "+" : "") + o3, src);
		wr_destroyContext(x); wr_destroyState(w); if (wr::g_live != base) c.fail("leak:" + key, sf("allocation %ld%s fails: %ld blocks leaked", k, mode ? "+" : "", wr::g_live - base), src);
		if (c.failed && !c.verbose) return;
	}
}
static void single(Ctx& c) { int fn = c.choose(2), t0 = c.choose(4), o = c.choose(NOPS); c.split(); explore(c, program(fn, t0, ops[o]), sf("one:%d:%d:%d", fn, t0, o)); }
static void pairs(Ctx& c) {
	int fn = c.choose(2), t0 = c.choose(4), o = c.choose(NOPS), p = c.choose(NOPS); c.split(); if (!c.thorough() && (t0 != (o + p) % 4 || fn != (o & 1))) throw Skip(); // quick: one of the eight settings per pair
	if (strstr(ops[o], "var ") && o == p) throw Skip();
	explore(c, program(fn, t0, std::string(ops[o]) + ops[p]), sf("two:%d:%d:%d:%d", fn, t0, o, p));
}
MC_MAIN({ "single", single, false }, { "recall", recall, false }, { "pairs", pairs, false })
