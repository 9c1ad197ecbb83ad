// P05: garbage collection is invisible. Every program of the alphabet is run once with collection never happening and then
// under every collection schedule of the bound; the observable behaviour must be identical, no freed memory may be touched
// (AddressSanitizer build), everything must be returned at the end and garbage must not accumulate.
#include "wr.h"
using namespace mc;
static WRState* g_w; static std::vector<char> g_sched; static long g_k; static int g_rest; static bool g_on;
static void decide() { // called at every allocation and every host call: collection allowed until the next decision?
	if (!g_on) return; long k = g_k++; int v = k < (long)g_sched.size() ? g_sched[k] : g_rest;
	wr_setAllocatedMemoryGCHint(g_w, v ? 0u : 0xFFFFFFFFu);
}
static void* alloc5(size_t n) { void* p = wr::talloc(n); decide(); return p; }
static void cbOut5(WRContext* c, const WRValue* a, const int n, WRValue& r, void* u) { decide(); wr::cbOut(c, a, n, r, u); }
// host function that returns a fresh string built by the host
static void cbHost(WRContext* c, const WRValue* a, const int n, WRValue& r, void*) { decide(); char b[64] = "h"; char t[32] = ""; if (n) a[0].asString(t, 31); snprintf(b, sizeof b, "host<%s>", t); wr_makeString(c, &r, b, (int)strlen(b)); }
struct Res { std::string out; long decisions; long live; };
static Res runOnce(const wr::Bytes& b, int rest, const std::vector<char>& sched, int stack) {
	wr::g_out.clear(); long live0 = wr::g_live;
	g_on = false; WRState* w = wr_newState(stack); wr_loadAllLibs(w);
	wr_registerFunction(w, "out", cbOut5); wr_registerFunction(w, "host", cbHost);
	g_w = w; g_rest = rest; g_sched = sched; g_k = 0; g_on = true; decide();
	WRContext* c = wr_run(w, b.p, b.n); int guard = 0;
	while (c && wr_getYieldInfo(c) && ++guard < 50) { wr::g_out += "Y;"; if (!wr_continue(c)) break; }
	g_on = false; Res r; r.out = wr::g_out; int e = wr_getLastError(w); if (e) r.out += sf("!E%d", e);
	r.decisions = g_k; r.live = wr::g_live; wr_destroyState(w); g_w = 0;
	if (wr::g_live != live0) r.out += sf("!LEAK%ld", wr::g_live - live0);
	return r;
}
// explores the schedules of one program. depth 0: always; 1: + every suffix and every single point; 2: + all subsets when few, else all pairs
static void explore(Ctx& c, const std::string& src, const std::string& key, int depth, int stack = 96) {
	c.id(key); c.note(src); wr::Bytes b; if (wr::compile(src, b)) { c.fail("compile:" + key, sf("does not compile: %d", b.err), src); return; }
	Res base = runOnce(b, 0, {}, stack); c.outcome(base.out); if (base.out.find('!') != std::string::npos) { c.fail("base:" + key, "without collection: " + base.out.substr(0, 300), src); return; }
	auto test = [&](int rest, const std::vector<char>& s, const std::string& name) { c.note(src + "\n// schedule " + name); Res r = runOnce(b, rest, s, stack); c.transition(r.decisions); c.trace(); c.state(hashs(r.out) ^ mix(r.live));
		if (r.out != base.out) { c.fail("gc:" + key, "schedule " + name + ": got <" + r.out.substr(0, 400) + "> want <" + base.out.substr(0, 400) + ">", src); return false; } return true; };
	if (!test(1, {}, "always")) return;
	long D = base.decisions; if (depth == 0) return;
	if (depth >= 2 && D <= 9) { for (long m = 0; m < (1L << D); ++m) { std::vector<char> s(D); std::string nm; for (long i = 0; i < D; ++i) { s[i] = (m >> i) & 1; nm += s[i] ? '1' : '0'; } for (int r = 0; r < 2; ++r) if (!test(r, s, nm + (r ? "1*" : "0*"))) return; } return; }
	for (long i = 0; i < D; ++i) { std::vector<char> s(i + 1, 0); s[i] = 1; if (!test(0, s, sf("only %ld", i)) || !test(1, s, sf("from %ld", i))) return; }
	if (depth >= 2) for (long i = 0; i < D && i < 60; ++i) for (long j = i + 1; j < D && j < 60; ++j) { std::vector<char> s(j + 1, 0); s[i] = s[j] = 1; if (!test(0, s, sf("only %ld,%ld", i, j))) return; }
}
static const char* PRE =
	"struct S { var m; var n = 3; };\nstruct T(p) { var q = p; var r = \"r\" + p; };\nvar g = 0;\n"
	"function mk(i) { return \"str\" + i; }\nfunction mka(i) { var t; t = { i, \"el\" + i }; return t; }\nfunction mkn(i) { var t; t = { mka(i), mk(i), { mk(1), 2 } }; return t; }\n"
	"function mkh(i) { var t; t = { \"k\": \"hv\" + i, 5: mka(i) }; return t; }\nfunction mks(i) { var t = new S(); t.m = \"sm\" + i; return t; }\nfunction mkt(i) { var t = new T(mk(i)); return t; }\n"
	"function id(x) { return x; }\nfunction two(x, y) { var q = x; mk(3); return q + y; }\nfunction junk() { var j = mka(1); j = mkh(2); mk(4); return 1; }\n"
	"function rec(n) { if ( n <= 0 ) { return mk(0); } var l = mka(n); var r = rec(n - 1); return r + l[1]; }\n"
	"function dropg(x) { g = 0; junk(); return x; }\n";
enum Ty { INT, STR, ARR, HASH, STRUCT, NTY };
struct Op { const char* txt; int need, needW, res, resW; }; // -1: any / unchanged. $V $W $I
enum { ANY = -1, SAMEW = 100 };
static const Op ops[] = {
	{ "$V = \"s\" + $I; ", ANY, ANY, STR, -1 }, { "$V = mk($I); ", ANY, ANY, STR, -1 }, { "$V = mka($I); ", ANY, ANY, ARR, -1 }, { "$V = mkh($I); ", ANY, ANY, HASH, -1 }, { "$V = mks($I); ", ANY, ANY, STRUCT, -1 }, { "$V = mkn($I); ", ANY, ANY, ARR, -1 },
	{ "$V = $W; ", ANY, ANY, SAMEW, -1 }, { "$V = { mk($I), $W, mka($I) }; ", ANY, ANY, ARR, -1 }, { "$V = { \"k\": mk($I), mk(7): $W }; ", ANY, ANY, HASH, -1 }, { "$V = new S(); $V.m = $W; ", ANY, ANY, STRUCT, -1 },
	{ "out(two(mk(1), mk(2)) + two(mk(3), \"x\" + $I)); ", ANY, ANY, -1, -1 }, { "list::push_back($V, mk($I)); ", ARR, ANY, -1, -1 }, { "list::push($V, $W); ", ARR, ANY, -1, -1 }, { "$V[2] = mk($I); ", ARR, ANY, -1, -1 }, { "$V[0] = mka($I); ", ARR, ANY, -1, -1 },
	{ "$V[\"k\"] = mka($I); ", HASH, ANY, -1, -1 }, { "for ( var j = 0; j < 9; ++j ) { $V[j * 11] = mk(j); } ", HASH, ANY, -1, -1 }, { "$V[mk(1)] = mk(2); ", HASH, ANY, -1, -1 }, { "$V = id($V); ", ANY, ANY, -1, -1 },
	{ "g = $V; for ( var e : g ) { out(e); g = 0; junk(); } ", ARR, ANY, -1, -1 }, { "g = $V; for ( var k, var e : g ) { $W = mk(9); junk(); } ", HASH, ANY, -1, STR }, { "$V = 0; ", ANY, ANY, INT, -1 }, { "junk(); mk(1) + mk(2); ", ANY, ANY, -1, -1 },
	{ "$V = host(mk($I)); ", ANY, ANY, STR, -1 }, { "$V = $V + mk($I); ", STR, ANY, -1, -1 }, { "$V += \"z\" + $I; ", STR, ANY, -1, -1 }, { "g = { $V, $W }; ", ANY, ANY, -1, -1 }, { "$V.m = mka($I); ", STRUCT, ANY, -1, -1 },
	{ "yield($V, mk(3)); ", ANY, ANY, -1, -1 }, { "$W = list::pop($V); ", ARR, ANY, -1, INT + 50 }, { "$V[0] = id(mk($I)) + mk(2); ", ARR, ANY, -1, -1 }, { "g = $V; $V = 0; $W = dropg(g); ", ANY, ANY, INT, SAMEW + 1 }, { "array::clear($V); ", ARR, ANY, -1, -1 }, { "array::remove($V, 0); junk(); ", ARR, ANY, -1, -1 },
	{ "out($V[1].m); $V[1].m = mk(1); out(mk(2)); ", STR, ANY, -1, -1 }, { "out($V[1][2]); $V[1][0] = mk(4); out(mk(2)); ", STR, ANY, -1, -1 }, { "out($V[1][\"k\"]); $V[0][\"k\"] = mk(3); out(mk(2)); ", STR, ANY, -1, -1 }, { "$V = new S[]{ { mk(1), mk(2) }, { $W, mk(3) } }; out($V[0].m); out($V[1].n); ", ANY, ANY, ARR, -1 }, { "$V[0] = 4; out($V[0].m); out($V[0]); $V[0] = 4; $V[0][1] = mk(2); ", ARR, ANY, -1, -1 },
	{ "$W = $V[1]; ", ARR, ANY, -1, INT + 50 }, { "$W = $V[\"k\"]; ", HASH, ANY, -1, INT + 50 }, { "$W = $V.m; ", STRUCT, ANY, -1, INT + 50 }, { "$V[1] = mk(6); out(mk(1) + $V[1] + mk(2)); ", ARR, ANY, -1, -1 }, { "hash::add($V, mk($I), mk(8)); ", HASH, ANY, -1, -1 }, { "hash::remove($V, \"k\"); junk(); ", HASH, ANY, -1, -1 },
	{ "$V = str::concat(mk($I), mk(2)); ", ANY, ANY, STR, -1 }, { "$V = str::left(mk(5), 3); ", ANY, ANY, STR, -1 }, { "$V = mkt($I); out($V.r); ", ANY, ANY, STRUCT, -1 }, { "out(rec(3)); ", ANY, ANY, -1, -1 }, { "$V = std::serialize($W); $V = std::deserialize($V); ", ANY, HASH, HASH, -1 },
	{ "out(two(id(mk(1)), $V)); ", STR, ANY, -1, -1 }, { "$V[1] = $V; junk(); ", ARR, ANY, -1, -1 }, { "$V[\"me\"] = $V; junk(); ", HASH, ANY, -1, -1 }, { "$V.n = $V; junk(); $V.n = 4; ", STRUCT, ANY, -1, -1 }, { "$V[0] = $W; $W[0] = $V; junk(); ", ARR, ARR, -1, -1 }, { "$V = { $V, $V }; ", ANY, ANY, ARR, -1 }, { "$V = str::sprintf(\"%s-%d\", mk(2), $I); ", ANY, ANY, STR, -1 }, { "out(id({ mk(1), mk(2) })); ", ANY, ANY, -1, -1 },
	{ "while ( g < 2 ) { g = g + 1; $V = { mk(g), $V }; } ", ANY, ANY, ARR, -1 }, { "switch ( mk(1) ) { case \"str1\": { $V = mk(2); break; } default: { $V = 0; } } ", ANY, ANY, STR, -1 }, { "$V[mk(1) == mk(1)] = mka(3); ", ARR, ANY, -1, -1 }, { "{ var x1 = mka(1); var x2 = mkh(2); $V = x1; junk(); out(x1, x2); } ", ANY, ANY, ARR, -1 } };
enum { NOPS = sizeof(ops) / sizeof(ops[0]) };
static std::string subst(const char* t, const std::string& V, const std::string& W, int i) { std::string o; for (const char* p = t; *p; ++p) { if (*p == '$') { ++p; o += *p == 'V' ? V : *p == 'W' ? W : sf("%d", i); } else o += *p; } return o; }
static std::string show(const std::string& v, int t) { return t == STRUCT ? "out(" + v + ".m); out(" + v + ".n); " : "out(" + v + "); "; }
static const char* inits[] = { "", "mk(6)", "mka(6)", "mkh(6)", "mks(6)" };
static bool step(Ctx& c, int o, int v, int i, int ty[2], const char* const nm[2], std::string& body, bool fn) {
	const Op& p = ops[o]; int w = 1 - v; if (p.need != ANY && ty[v] != p.need) return false; if (p.needW != ANY && ty[w] != p.needW) return false;
	if (!fn && strstr(p.txt, "{ var x1")) { } 
	std::string t = subst(p.txt, nm[v], nm[w], i + 1); if (fn && t[0] == '{') { size_t a = t.find('{'), z = t.rfind('}'); t = t.substr(a + 1, z - a - 1); size_t q; while ((q = t.find("x1")) != std::string::npos) t.replace(q, 2, sf("y%d", i)); while ((q = t.find("x2")) != std::string::npos) t.replace(q, 2, sf("w%d", i)); }
	{ size_t q; while ((q = t.find("var j ")) != std::string::npos) t.replace(q, 6, sf("var j%d ", i)); while ((q = t.find("var e ")) != std::string::npos) t.replace(q, 6, sf("var e%d ", i)); while ((q = t.find("var k,")) != std::string::npos) t.replace(q, 6, sf("var k%d,", i)); while ((q = t.find("out(e)")) != std::string::npos) t.replace(q, 6, sf("out(e%d)", i));
	  if (strstr(p.txt, "var j ")) { t = sf("for ( var j%d = 0; j%d < 9; ++j%d ) { ", i, i, i) + nm[v] + sf("[j%d * 11] = mk(j%d); } ", i, i); } }
	int tw = ty[w], tv = ty[v];
	if (p.res == SAMEW) ty[v] = tw; else if (p.res >= 0) ty[v] = p.res;
	if (p.resW == SAMEW + 1) ty[w] = tv; else if (p.resW == INT + 50) ty[w] = INT; else if (p.resW >= 0) ty[w] = p.resW;
	if (strstr(p.txt, "while ( g")) t = "g = 0; " + t;
	body += t + show(nm[0], ty[0]) + show(nm[1], ty[1]); return true;
}
static std::string program(int mode, const std::string& init, const std::string& body) {
	std::string s = PRE; if (mode == 0) return s + "var a = 0; var b = 0; " + init + body + "\n";
	if (mode == 1) return s + "function t() { var a = 0; var b = 0; " + init + body + "}\nt();\nout(g);\n";
	return s + "function t(a, b) { " + body + "return a; }\nvar a = 0; var b = 0; " + init + "var z = t(a, b); junk(); out(a); out(b); \n";
}
static void sequences(Ctx& c) {
	static const char* nm[2] = { "a", "b" }; int mode = c.choose(c.thorough() ? 3 : 2), t0 = c.choose(NTY), t1 = c.choose(c.thorough() ? (int)NTY : 2); if (!c.thorough() && t1) t1 = HASH;
	int ty[2] = { t0, t1 }, len = 2; std::string init, body, key = sf("seq:%d:%d:%d", mode, t0, t1);
	if (t0) init += std::string("a = ") + inits[t0] + "; "; if (t1) init += std::string("b = ") + inits[t1] + "; ";
	for (int i = 0; i < len; ++i) { int v = c.choose(i == 0 && !c.thorough() ? 1 : 2), o = c.choose(NOPS); if (i == 0) c.split(); if (!step(c, o, v, i, ty, nm, body, mode != 0)) throw Skip(); key += sf(":%d.%d", o, v); }
	explore(c, program(mode, init, body), key, c.thorough() ? 1 : 0);
}
// a single operation under every schedule
static void schedules(Ctx& c) {
	static const char* nm[2] = { "a", "b" }; int mode = c.choose(3), t0 = c.choose(NTY), t1 = c.choose(NTY), v = c.choose(2), o = c.choose(NOPS); c.split();
	if (!c.thorough() && t1 != INT && t1 != HASH && t1 != ARR) throw Skip();
	int ty[2] = { t0, t1 }; std::string init, body; if (t0) init += std::string("a = ") + inits[t0] + "; "; if (t1) init += std::string("b = ") + inits[t1] + "; ";
	if (!step(c, o, v, 0, ty, nm, body, mode != 0)) throw Skip();
	explore(c, program(mode, init, body), sf("sch:%d:%d:%d:%d:%d", mode, t0, t1, v, o), c.thorough() ? 2 : 1);
}
// three operations, collection at every point
static void triples(Ctx& c) {
	static const char* nm[2] = { "a", "b" }; int mode = c.choose(2), t0 = c.choose(NTY); int ty[2] = { t0, 0 }; std::string init, body, key = sf("tri:%d:%d", mode, t0); if (t0) init += std::string("a = ") + inits[t0] + "; ";
	for (int i = 0; i < 3; ++i) { int v = c.choose(2), o = c.choose(NOPS); if (i == 0) c.split(); if (!step(c, o, v, i, ty, nm, body, mode != 0)) throw Skip(); key += sf(":%d.%d", o, v); }
	explore(c, program(mode, init, body), key, 0);
}
// garbage is reclaimed: memory held after n rounds does not grow with n
static void reclaim(Ctx& c) {
	static const char* nm[2] = { "a", "b" }; int mode = c.choose(2), o = c.choose(NOPS), v = c.choose(2), t0 = c.choose(NTY), hint = c.choose(3); c.split();
	int ty[2] = { t0, t0 }; std::string body, init; if (!step(c, o, v, 0, ty, nm, body, mode != 0)) throw Skip(); if (strstr(ops[o].txt, "{ $V, $V }") || strstr(ops[o].txt, "$V, $W }") || strstr(ops[o].txt, "var x1") || strstr(ops[o].txt, "$W, mka") || strstr(ops[o].txt, ": $W") || strstr(ops[o].txt, "$V.m = $W") || strstr(ops[o].txt, "yield")) throw Skip();
	std::string pre = t0 ? std::string("a = ") + inits[t0] + "; b = " + inits[t0] + "; " : std::string("a = 0; b = 0; ");
	long live[2] = { 0, 0 }; static const long hints[] = { 0, 200, 5000 }; static const int rounds[] = { 60, 240 };
	for (int r = 0; r < 2; ++r) {
		std::string loop = sf("for ( var q = 0; q < %d; ++q ) { ", rounds[r]) + pre + body + "} a = 0; b = 0; ", src = program(mode, "", loop); c.note(src);
		wr::Bytes b; if (wr::compile(src, b)) { c.fail(sf("compile:rec:%d:%d", mode, o), sf("does not compile: %d", b.err), src); return; }
		wr::g_out.clear(); WRState* w = wr_newState(96); wr_loadAllLibs(w); wr_registerFunction(w, "out", cbOut5); wr_registerFunction(w, "host", cbHost); wr_setAllocatedMemoryGCHint(w, (uint32_t)hints[hint]); long before = wr::g_liveBytes; wr::g_maxBytes = before;
		wr_run(w, b.p, b.n); live[r] = wr::g_maxBytes - before; c.transition(rounds[r]); wr_destroyState(w);
	}
	c.trace(); c.outcome(sf("%d.%d.%d", o, t0, live[0] == live[1]));
	if (live[1] > live[0] + 6000) c.fail(sf("reclaim:%d:%d:%d", mode, o, t0), sf("peak memory %ld bytes after 60 rounds, %ld after 240", live[0], live[1]), std::string(c.shm->note));
}
// an operand, argument or assignment target taken from a container is pending while a call changes that container
static void pend(Ctx& c, bool known) {
	static const char* cont[] = { "{ 1, \"e\" + 1, 3 }", "{ 0: mk(1), 1: mk(2) }", "{ \"k\": mk(1), \"l\": 2 }", "{ mka(1), mka(2) }", "{ \"k\": mka(1), \"l\": mkh(1) }", "mks(1)" };
	static const char* elem[][3] = { { "g[0]", "g[1]", "g[5]" }, { "g[0]", "g[1]", "g[9]" }, { "g[\"k\"]", "g.l", "g[\"new\"]" }, { "g[0][0]", "g[1][1]", "g[1]" }, { "g[\"k\"][1]", "g[\"l\"][\"k\"]", "g.k" }, { "g.m", "g.m", "g.m" } };
	static const char* change[] = { "junk();", "g = 0; junk();", "g = 3; junk();", "g = \"s\" + 1; junk();", "g = mka(4); junk();", "g = mkh(4); junk();", "%", "list::push(g, mk(1)); junk();", "list::pop_back(g); list::pop_back(g); junk();", "array::truncate(g, 0); junk();", "hash::remove(g, \"k\"); junk();", "hash::clear(g); junk();", "% g = 0; junk();", "g = mks(1); junk();" };
	static const char* use[] = { "out(@, f());", "out(two(id(\"\" + @), f()));", "var r = @ == f(); out(r);", "@ = f();", "var q = id2(@, f()); out(q);", "g2 = { @, f() }; out(g2);", "g2 = { \"a\": @, \"b\": f() }; out(g2);", "out(\"x\" + (@ == 1) + f());", "@ += f();", "g2 = @; f(); out(g2);", "out(par(@));" };
	int ci, ei, ch, u, fn = 0;
	if (known) { static const int rep[][4] = { { 0, 0, 1, 2 }, { 1, 0, 1, 2 }, { 2, 0, 6, 3 }, { 3, 0, 1, 3 }, { 2, 1, 6, 0 }, { 5, 0, 1, 10 } }; int k = c.choose(6); c.split(); ci = rep[k][0]; ei = rep[k][1]; ch = rep[k][2]; u = rep[k][3]; }
	else { ci = c.choose(6), ei = c.choose(3), ch = c.choose(14), u = c.choose(11), fn = c.choose(2); c.split(); }
	if (!known && ch != 0 && (u == 2 || u == 3 || u == 8 || (ci == 2 && ei == 1) || (ci == 4 && ei == 2) || (ci == 5 && u != 6))) throw Skip(); // the recorded finding: a reference to the element is kept while the container changes (see knownPending)
	 if (ei == 2 && ci >= 3 && (u == 1 || u == 8)) throw Skip(); // text of a container is not defined
	std::string e = elem[ci][ei], chg = change[ch]; size_t q; while ((q = chg.find('%')) != std::string::npos) chg.replace(q, 1, ci == 0 || ci == 3 ? "for ( var i = 0; i < 30; ++i ) { g[i] = \"gr\" + i; } junk();" : "for ( var i = 0; i < 30; ++i ) { g[i * 7] = \"gr\" + i; } junk();");
	std::string us = use[u]; while ((q = us.find('@')) != std::string::npos) us.replace(q, 1, e);
	std::string src = std::string(PRE) + "var g2 = 0;\nfunction id2(x, y) { return x; }\nfunction f() { " + chg + " return \"f\" + 1; }\nfunction par(x) { f(); return x; }\n";
	src += fn ? "function t() { g = " + std::string(cont[ci]) + "; " + us + " junk(); out(1); }\nt();\n" : "g = " + std::string(cont[ci]) + "; " + us + " junk(); out(1);\n";
	explore(c, src, sf("%s:%d:%d:%d:%d", known ? "stale-element-ref" : "pend", ci, ei, ch, u), 0);
}
// values left behind above the live stack are not roots: a reclaimed one there must not be touched
static void stale(Ctx& c) {
	static const char* st[] = { "array::insert(a, 0);", "array::insert(a, 0, 2);", "list::push(a, 5);", "list::push_back(a, mk(4));", "array::clear(a);", "array::clear(a, 3);", "hash::clear(h);", "hash::add(h, 5, 6);", "hash::remove(h, 5);", "std::deserialize(z);", "std::serialize(h);", "array::remove(a, 0);", "array::truncate(a, 1);", "str::concat(\"a\", \"b\");", "str::left(\"abc\", 1);", "id(1);", "var r1 = new S();", "var r2 = mk(2);", "a[5] = 1;", "h[7] = mk(7);", "queue::push(a, 1);", "stack::push(a, 1);", "list::pop(a);" };
	int k = c.choose(7), i = c.choose(23), fn = c.choose(2), big = c.choose(3); c.split();
	std::string f; for (int q = 0; q < k; ++q) f += "0, "; std::string b = "a = { 1, 2 }; h = { 5: 2 }; z = std::serialize(a); ";
	b += "out(" + f + (big == 0 ? "mk(1)" : big == 1 ? "mka(1)" : "mkh(1)") + "); array::clear(w1); hash::clear(w1); " + st[i] + " out(1); " + st[i] + " ";
	{ size_t q; while ((q = b.find("var r1")) != std::string::npos) b.replace(q, 6, "w1"); while ((q = b.find("var r2")) != std::string::npos) b.replace(q, 6, "w1"); }
	explore(c, std::string(PRE) + "var a; var h; var z; var w1 = 0;\n" + (fn ? "function t() { " + b + " out(a); }\nt();\n" : b + " out(a);\n"), sf("stale:%d:%d:%d:%d", k, i, fn, big), 1);
}
static void pending(Ctx& c) { pend(c, false); }
static void knownPending(Ctx& c) { pend(c, true); }
// containers of every size class keep their contents while they grow and while the collector runs
static void large(Ctx& c, bool known) {
	static const int sizes[] = { 1000, 1543, 1544, 3079, 3080, 6151, 6152, 12289, 12290, 24593, 24594, 40000, 49157, 60000 }; static const int strs[] = { 100, 1000, 3000, 6000, 20000 };
	int kind = c.choose(4), n, z = 0; // array / sequential int keys / spread int keys / string keys
	if (known) { if (kind != 1) throw Skip(); n = 60000; }
	else { if (kind == 3) n = strs[c.choose(5)]; else n = sizes[c.choose(kind == 0 ? 10 : kind == 1 ? 12 : 9)]; z = n > 7000 ? 0 : c.choose(2); }
	c.split();
	std::string k = kind == 3 ? "(\"key\" + i)" : kind == 2 ? "(i * 7919)" : "i";
	std::string src = sf("var h%s; var j = 0; var bad = 0;\nfor ( var i = 0; i < %d; ++i ) { h[%s] = %s; %s}\n", kind ? " = { -5 : 1 }" : "[0]", n, k.c_str(), "i * 3", z ? "j = \"gar\" + i; " : "");
	src += sf("for ( var i = 0; i < %d; ++i ) { if ( h[%s] != i * 3 ) { ++bad; } }\nout(bad, h._count);\n", n, k.c_str());
	std::string id = sf("large:%d:%d:%d", kind, n, z); c.id(id); c.note(id); wr::RunOpt o; o.libs = true; o.stack = 64;
	std::string got = wr::runScript(src, o), w = sf("0 %d;", n + (kind ? 1 : 0)); c.outcome(id + got); c.transition(2 * n);
	if (got != w) c.fail(id, "got <" + got + "> want <" + w + ">", src);
}
static void big(Ctx& c) { large(c, false); }
static void knownBig(Ctx& c) { large(c, true); }
static void init5() { wr_setGlobalAllocator(alloc5, wr::tfree); }
// the variables of a foreach stay usable while the loop changes, replaces or drops what it walks over, and afterwards
static void loops(Ctx& c) {
	static const char* cont[] = { "{ mk(1), mka(2), 3 }", "{ 0: mk(1), 5: mka(2), 9: 3 }", "{ \"k\": mk(1), \"l\": mkh(2) }", "mkn(1)", "{ mks(1), mks(2) }" };
	static const char* act[] = { "junk();", "g = 0; junk();", "g = mka(4); junk();", "%", "list::push_back(g, mk(1)); junk();", "list::pop_back(g); list::pop_back(g); junk();", "array::truncate(g, 0); junk();", "hash::remove(g, 0); hash::remove(g, \"k\"); junk();", "hash::clear(g); junk();", "g[0] = mk(9); g[\"k\"] = 3; junk();", "e = mk(2); junk();", "h2 = e; g = 0; junk(); e = h2;", "list::push(g, mk(1)); junk();", "array::insert(g, 0, 20); junk();", "dropg(e); junk();", "h2 = { e, 1 }; g = h2; junk();", "h2 = { \"x\": e }; g = h2; h2 = 0; junk();" };
	int ci = c.choose(5), a = c.choose(17), two = c.choose(2), fn = c.choose(2), brk = c.choose(2), late = c.choose(2); c.split();
	bool arr = ci == 0 || ci >= 3; if ((a == 4 || a == 5 || a == 6 || a == 12 || a == 13) && !arr) throw Skip(); if ((a == 7 || a == 8) && arr) throw Skip(); if (a == 9 && arr) throw Skip(); if (!brk && (a == 4 || a == 12 || a == 13)) throw Skip(); // would go on for ever
	std::string chg = act[a]; size_t q; while ((q = chg.find('%')) != std::string::npos) chg.replace(q, 1, arr ? "for ( var i = 0; i < 30; ++i ) { g[i + 40] = \"gr\" + i; } junk();" : "for ( var i = 0; i < 30; ++i ) { g[i * 7 + 1] = \"gr\" + i; } junk();"); if (a == 3) { if (!brk) throw Skip(); }
	std::string b = std::string("g = ") + cont[ci] + "; " + (two ? "var k; " : "") + "var e; for ( " + (two ? "k, e" : "e") + " : g ) { " + chg + " out(e" + (two ? ", k" : "") + "); " + (brk ? "break; " : "") + "} " + (late ? "g = 0; h2 = 0; junk(); " : "") + "out(e" + (two ? ", k" : "") + "); junk(); out(1); ";
	explore(c, std::string(PRE) + "var h2 = 0;\n" + (fn ? "function t() { " + b + "}\nt();\n" : b), sf("loops:%d:%d:%d:%d:%d:%d", ci, a, two, fn, brk, late), 1);
}
int main(int argc, char** argv) { mc::Engine e; e.scen = { { "schedules", schedules, false }, { "sequences", sequences, false }, { "triples", triples, true }, { "reclaim", reclaim, false }, { "stale", stale, false }, { "pending", pending, false }, { "knownPending", knownPending, false }, { "loops", loops, false }, { "big", big, false }, { "knownBig", knownBig, false } }; e.perWorkerInit = init5; return e.main(argc, argv); }
