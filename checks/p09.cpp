// P09: yield / continue and isolation of contexts.
// "transparent": a script that yields, continued by a host which supplies values, behaves exactly like the same script calling
//   a native function that returns those values (oracle: the same program with yield replaced by that native call).
// "isolation": contexts that share a state behave, under every interleaving of host operations, as if each ran in a state of
//   its own (oracle: the projection of the history onto one context, run alone in a fresh state).
#include "wr.h"
using namespace mc;
static std::string g_log; static int g_pol, g_n, g_p0, g_p1; static long g_yields;
static void value(WRContext* c, WRValue* r) { int k = g_n == 0 ? g_p0 : g_n == 1 ? g_p1 : (g_n * 3 + g_p0 + g_p1) % 5; ++g_n;
	switch (k) { case 0: break; case 1: wr_makeInt(r, 2); break; case 2: wr_makeFloat(r, 1.5f); break; case 3: wr_makeString(c, r, "str"); break; case 4: wr_makeInt(r, 0); break; } }
static void logArgs(const WRValue* a, int n) { wr::g_out += "Y("; for (int i = 0; i < n; ++i) { if (i) wr::g_out += ' '; wr::g_out += wr::render(a[i]); } wr::g_out += ")"; }
static void cbHostY(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void*) { logArgs(argv, argn); wr_makeInt(&ret, 0); value(c, &ret); ++g_yields; if (g_yields > 60) { fprintf(stderr, "runaway\n"); abort(); } }
static std::string rep(std::string s, const std::string& a, const std::string& b) { size_t p = 0; while ((p = s.find(a, p)) != std::string::npos) { s.replace(p, a.size(), b); p += b.size(); } return s; }
static const char* PRE = "struct S(x) { var m = x; var n = 7; };\nstruct T { var p = Q(4); var q = 5; };\nvar ga = 3; var gs = \"gs\"; var gl[] = { 1, 2, 3 }; var gh = { \"k\":4, 2:\"v\" };\n"
	"function id(x) { return x; }\nfunction two(x, y) { var t = x; return t + y; }\nfunction deep(n) { if ( n > 0 ) { var l = deep(n - 1); return l + n; } return Q(n, \"deep\"); }\nfunction each(n) { if ( n > 0 ) { var q = Q(n); var l = each(n - 1); return q + l; } return 0; }\nfunction loc(a) { var b = a; var c = Q(b); var d = Q(c, b); return a + b + c + d; }\nfunction noret() { Q(9); }\nfunction mk(v) { var l; l[1] = v; return l; }\n";
static const char* E1[] = { "Q()", "Q(1)", "Q(ga, gs)", "Q(gl)", "Q(gh, gl[1], 2.5, \"four\")", "Q(Q(1))", "Q(Q(), Q(2), 3)", "id(Q(2))", "deep(2)", "each(2)", "loc(2)", "noret()", "two(Q(1), Q(2))", "Q(id(4), two(1, 2))", "Q(gs + 1)", "gl[Q(1) == 2]", "-Q(5)", "!Q()", "(Q(1) + Q(2))", "(float)Q(1)", "Q(mk(3), mk(gs))" };
static const char* C1[] = { "out(@);", "var v1; v1 = @; out(v1);", "ga = @; out(ga);", "@;", "out(two(@, 2), @);", "out(two(1, @));", "out(1 + @);", "out(\"s\" + @);", "if ( @ ) { out(1); } else { out(2); }", "if ( @ == 2 ) { out(@); }", "var i3; for ( i3 = 0; i3 < 3; ++i3 ) { out(i3, @); }", "var w3 = 0; while ( w3 < 2 ) { out(@); ++w3; }", "var w4 = 0; do { @; ++w4; out(w4); } while ( w4 < 2 );", "switch ( @ ) { case 2: out(2); break; case 1: out(@); default: out(9); }", "var s5; s5 = new S(@); out(s5.m, s5.n);", "var s6; s6 = new S(3){ m = @, n = @ }; out(s6.m, s6.n);", "var l7[] = { 1, @, 3 }; out(l7);", "gl[1] = @; out(gl);", "gh[\"k\"] = @; out(gh[\"k\"]);", "gh[@] = 8; out(gh);", "for ( var fe : gl ) { out(fe, @); }", "for ( var fk, var fv : gl ) { out(fk, @, fv); }", "ga += @; out(ga);", "gl[0] += @; out(gl);", "var h8 = { 1:@, \"z\":@ }; out(h8);", "var t9; t9 = new T(); out(t9.p, t9.q, @);", "out(@ == @);", "out(ga < @);", "out(mk(@));", "out(str::format(\"%d %s\", 3, \"x\"), @, math::floor(2.5));", "var li; li[0] = \"a\" + @; list::push(li, @); out(li);", "ga = 5; if ( ga ) { out(ga); } ga = ga + @; out(ga);" };
enum { NE = sizeof(E1) / sizeof(E1[0]), NC = sizeof(C1) / sizeof(C1[0]) };
static std::string run(const std::string& src, int mode, long gc, bool yields) {
	std::string s = rep(src, "Q(", yields ? "yield(" : "hosty("); wr::Bytes b; if (wr::compile(s, b)) return sf("COMPILE%d", b.err);
	long live0 = wr::g_live; g_n = 0; g_yields = 0; wr::g_out.clear(); WRState* w = wr_newState(120); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); wr_registerFunction(w, "hosty", cbHostY); if (gc >= 0) wr_setAllocatedMemoryGCHint(w, gc);
	auto drive = [&](WRContext* c, WRValue* r) { WRValue *a = 0, *q = 0; int n = 0; while (c && !wr_getLastError(w) && wr_getYieldInfo(c, &a, &n, &q)) { if (r) wr::g_out += "!VALUE-ON-YIELD"; if (!q) { wr::g_out += "!NORET"; break; } logArgs(a, n); value(c, q); if (++g_yields > 60) { fprintf(stderr, "runaway\n"); abort(); } r = wr_continue(c); }
		if (wr_getLastError(w)) wr::g_out += sf("!E%d", wr_getLastError(w)); else wr::g_out += "=" + (r ? wr::render(*r) : std::string("null")); };
	WRContext* c = wr_newContext(w, b.p, b.n); WRValue* r = wr_executeContext(c); if (!yields && !r) wr::g_out += "!NULL"; drive(c, r);
	if (mode == 2 && !wr_getLastError(w)) { WRFunction* f = wr_getFunction(c, "body"); WRValue v[2]; wr_makeInt(v, 6); wr_makeFloat(v + 1, 2.5f); for (int i = 0; i < 2; ++i) { r = wr_callFunction(c, f, v, 2); drive(c, r); } }
	if (!wr_getLastError(w)) { if (wr_continue(c) || wr_getLastError(w) != WR_ERR_context_not_yielded) wr::g_out += "!CONTINUE-AFTER-END"; }
	wr_destroyState(w); std::string o = wr::g_out; if (wr::g_live != live0) o += sf("!LEAK%ld", wr::g_live - live0); return o;
}
static void transparent(Ctx& c) {
	int mode = c.choose(3), k = c.choose(NC), e = c.choose(NE); c.split(); int pair = c.choose(2), k2 = 0, e2 = 0; if (pair) { k2 = c.choose(c.thorough() ? NC : 3); e2 = c.choose(c.thorough() ? 5 : 2); if (!c.thorough()) k2 = (k2 * 11 + 1 + k + e) % NC; e2 = (e2 * 4 + e + k2) % NE; if (k2 == k) throw Skip(); }
	int p0 = c.choose(pair ? 2 : 5), p1 = c.choose(pair ? 1 : 4), g = c.thorough() ? c.choose(2) : (p0 + p1 + k + e) & 1; if (pair) { p0 = p0 ? 3 : 1; p1 = p0 == 1 ? 2 : 0; }
	std::string body = rep(C1[k], "@", E1[e]) + " "; if (pair) body += rep(C1[k2], "@", E1[e2]) + " ";
	std::string src = std::string(PRE) + (mode == 0 ? body + "return ga;\n" : mode == 1 ? "function body(z, y) { " + body + "out(z, y); return z; }\nout(body(8, \"y\")); return body();\n" : "function body(z, y) { " + body + "out(z, y); return ga; }\n");
	g_p0 = p0; g_p1 = p1; std::string id = sf("%d:%d:%d:%d:%d:%d:%d:%d", mode, k, e, pair ? k2 + 1 : 0, e2, p0, p1, g); c.id(id); c.note(src + sf("// values %d %d gc %d", p0, p1, g));
	std::string want = run(src, mode, -1, false); long n = g_yields; std::string got = run(src, mode, g ? 1 : -1, true); c.transition(g_yields + 1); c.trace(); c.outcome(want); c.state(hashs(want));
	if (g_yields != n || got != want) c.fail("yield:" + id, "yielding <" + got + "> calling a native <" + want + ">", src);
	if (want.compare(0, 7, "COMPILE") == 0) c.fail("compile:" + id, want, src);
}
// ---------------------------------------------------------------------------------------------------------------------
static const char* P[] = {
	"var g = 1; var s = \"a\"; function f(x) { g = g + 1; s = s + x; return s + g; } function y(x) { var t = yield(x, g); g = g + 10; return t + x; } out(\"A\", g);",
	"var g = 100; var a[] = { 1, 2 }; function f(x) { array::push(a, x); a[0] = a[0] + 1; return a; } function y(x) { for ( var i = 0; i < 2; ++i ) { a[1] = yield(a, i); } return a; } out(\"B\", yield(\"start\", a)); g = 101; out(g, yield());",
	"var h = { \"k\":1 }; struct S { var m = 3; }; var o; o = new S(); function f(x) { o.m = o.m + 1; h[x] = \"v\" + o.m; return h._count; } function y(x) { o = new S(); o.m = yield(o.m); h = { \"n\":x }; return o.m; } var n = 0; while ( n < 3 ) { out(\"C\", n, yield(n)); ++n; }",
	"var g = \"\"; function f(x) { nothere(x); return 1; } function y(x) { yield(1); nothere(x); return 2; } out(\"D\", g);" };
enum { NPR = sizeof(P) / sizeof(P[0]) }; static wr::Bytes* bc[NPR];
struct Op { int kind, ctx, arg; }; // 0 run, 1 continue, 2 call f, 3 call y, 4 destroy, 5 read global, 6 failing run
static std::string doOp(WRState* w, WRContext*& c, const Op& o, bool first) {
	wr::g_out.clear(); std::string r; WRValue v[1]; WRValue* q = 0; bool isCall = true;
	auto fin = [&](WRValue* q) { int e = wr_getLastError(w); WRValue *a, *rv; int n; if (e) wr::g_out += sf("!E%d", e); else if (wr_getYieldInfo(c, &a, &n, &rv)) { logArgs(a, n); } else wr::g_out += q ? "=" + wr::render(*q) : "=null"; };
	switch (o.kind) {
		case 0: c = wr_newContext(w, bc[o.arg]->p, bc[o.arg]->n); q = wr_executeContext(c); fin(q); break;
		case 1: { WRValue* rv; if (wr_getYieldInfo(c, 0, 0, &rv)) { if (o.arg == 1) wr_makeInt(rv, 42); else if (o.arg == 2) wr_makeString(c, rv, "host"); } q = wr_continue(c); fin(q); break; }
		case 2: case 3: { WRFunction* f = wr_getFunction(c, o.kind == 2 ? "f" : "y"); if (o.arg == 0) wr_makeInt(v, 7); else wr_makeString(c, v, "arg"); q = wr_callFunction(c, f, v, 1); fin(q); break; }
		case 4: wr_destroyContext(c); c = 0; break;
		case 5: { WRValue* g = wr_getGlobalRef(c, "::g"); WRValue* h = wr_getGlobalRef(c, "::h"); wr::g_out += (g ? wr::render(*g) : "none") + "," + (h ? wr::render(*h) : "none"); break; }
	}
	return wr::g_out; (void)r; (void)isCall; (void)first;
}
static std::map<std::string, std::vector<std::string>>* solo;
static void isolation(Ctx& c) {
	if (!bc[0]) for (int i = 0; i < NPR; ++i) { bc[i] = new wr::Bytes; wr::compile(P[i], *bc[i]); } if (!solo) solo = new std::map<std::string, std::vector<std::string>>;
	int len = 2 + c.choose(c.thorough() ? 5 : 4), gc = c.choose(2); std::vector<Op> ops; std::vector<int> live, prog; std::string h;
	for (int i = 0; i < len; ++i) { Op o; int opt = 0; std::vector<Op> can;
		if (live.size() < 3) for (int p = 0; p < NPR; ++p) can.push_back({ 0, (int)live.size(), p });
		for (size_t k = 0; k < live.size(); ++k) if (live[k]) { for (int a = 1; a < 3; ++a) can.push_back({ 1, (int)k, a }); can.push_back({ 2, (int)k, (int)k & 1 }); can.push_back({ 3, (int)k, (int)(k + 1) & 1 }); can.push_back({ 4, (int)k, 0 }); can.push_back({ 5, (int)k, 0 }); }
		opt = c.choose((int)can.size()); o = can[opt]; if (i == 1) c.split(); if (o.kind == 0) { live.push_back(1); prog.push_back(o.arg); } if (o.kind == 4) live[o.ctx] = 0; ops.push_back(o); h += sf("%d.%d.%d ", o.kind, o.ctx, o.arg); }
	{ int interesting = 0; for (auto& o : ops) interesting |= 1 << o.ctx; if (interesting == 1 && len > 3) throw Skip(); }
	h += gc ? "gc" : ""; c.id(h); c.note("history (operation.context.argument): " + h + "\n0 run, 1 continue, 2 f(), 3 y(), 4 destroy, 5 globals");
	// alone: the projection of the history on each context
	std::vector<std::vector<std::string>> want(3);
	for (int k = 0; k < (int)prog.size(); ++k) { std::string key; std::vector<Op> mine; for (auto& o : ops) if (o.ctx == k) { mine.push_back(o); key += sf("%d.%d ", o.kind, o.arg); }
		auto it = solo->find(key); if (it == solo->end()) { WRState* w = wr_newState(60); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); WRContext* x = 0; std::vector<std::string> res; for (auto& o : mine) res.push_back(doOp(w, x, o, true)); wr_destroyState(w); it = solo->emplace(key, res).first; if (solo->size() > 400000) { } } want[k] = it->second; }
	long live0 = wr::g_live; WRState* w = wr_newState(60); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); if (gc) wr_setAllocatedMemoryGCHint(w, 1); WRContext* x[3] = { 0, 0, 0 }; size_t at[3] = { 0, 0, 0 };
	for (size_t i = 0; i < ops.size(); ++i) { Op& o = ops[i]; std::string g = doOp(w, x[o.ctx], o, false); c.transition(); c.state(hashs(g) ^ mix(o.ctx)); if (g != want[o.ctx][at[o.ctx]++]) { c.fail("isolation:" + h, sf("operation %zu: <", i) + g + "> alone <" + want[o.ctx][at[o.ctx] - 1] + ">", h); break; } }
	wr_destroyState(w); c.trace(); c.outcome(want[0].empty() ? "" : want[0].back()); if (!c.failed && wr::g_live != live0) c.fail("leak:" + h, sf("%ld blocks leaked", wr::g_live - live0), h);
}
MC_MAIN({ "transparent", transparent, false }, { "isolation", isolation, false })
