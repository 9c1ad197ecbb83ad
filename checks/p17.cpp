// P17: imported modules. A program split into modules (linked with wr_import or by the script itself) must behave exactly like
// the same program in one piece in which every module's globals have names of their own. All histories of calls within bounds.
#include "wr.h"
using namespace mc;
typedef std::string S;
// @x stands for global x of the module: its own name in every module (all modules use the same names), distinct in one piece
static const char* MOD_B = "var @glo = \"gb\" + 0; var @num = 10; var @kep = 0;\nstruct b_S(p) { var m = \"m\" + p; var z = { p }; };\nfunction b_mkstr(n) { return \"bs\" + n; }\nfunction b_mkarr(n) { return { n, \"ba\" + n, { n } }; }\nfunction b_mkhash(n) { var r = { 1 : 2 }; r[\"k\" + n] = { n }; r[2] = \"bh\" + n; return r; }\nfunction b_keep(v) { @kep = v; return 0; }\nfunction b_get() { return @kep; }\nfunction b_id(v) { return v; }\nfunction b_churn(n) { for ( var i = 0; i < 25; ++i ) { var t = { i, \"bj\" + i }; } return n; }\nfunction b_inc() { @num = @num + 1; return @num; }\nfunction b_cat(v) { return \"<\" + v + \">\"; }\nfunction b_mut(v) { v[0] = \"mut\" + v[0]; v[5] = { @num }; return 0; }\nfunction b_callc(n) { return { c_mk(n), @glo, \"bc\" + n }; }\nfunction b_calla(n) { @num = @num + n; return { a_mk(n), @num }; }\nfunction b_deep(n) { var loc = \"loc\" + n; var r = c_deep(n); return { loc, r, @glo }; }\nfunction b_rec(n) { var l = \"r\" + n; if ( n <= 0 ) { return l; } return l + c_rec(n - 1); }\nfunction b_glob() { return { @glo, @num }; }\nfunction b_setg(v) { @glo = v; return @glo; }\nfunction b_new(n) { @kep = new b_S(n); return @kep; }\nfunction b_args(a, b, c, d) { return { a, b, c, d }; }\n";
static const char* MOD_C = "var @glo = \"gc\" + 0; var @num = 100; var @kep = { \"c\" + 1 };\nfunction c_mk(n) { @num = @num + 1; return { \"cm\" + n, @num }; }\nfunction c_keep(v) { @kep = { v, \"ck\" }; return 0; }\nfunction c_get() { return @kep; }\nfunction c_deep(n) { var loc = { \"cl\" + n }; for ( var i = 0; i < 12; ++i ) { var t = \"cj\" + i; } var r = a_mk(n); return { loc, r, @glo }; }\nfunction c_rec(n) { var l = \"q\" + n; if ( n <= 0 ) { return l; } return l + b_rec(n - 1); }\nfunction c_churn(n) { for ( var i = 0; i < 25; ++i ) { var t = { i, \"cj\" + i }; } return n; }\n";
static const char* MOD_A = "var @glo = \"ga\" + 0; var @num = 1; var @kep = 5; var x = 0; var y = \"y\" + 0;\nfunction a_mk(n) { for ( var i = 0; i < 6; ++i ) { var t = \"aj\" + i; } return \"am\" + n; }\n"
 "function o0(n) { x = b_mkstr(n); }\nfunction o1(n) { x = b_mkarr(n); }\nfunction o2(n) { x = b_mkhash(n); }\nfunction o3(n) { b_keep(x); }\nfunction o4(n) { x = b_get(); }\nfunction o5(n) { b_keep(\"l\" + n); }\nfunction o6(n) { var l = { n, \"q\" + n }; b_keep(l); l[1] = \"chg\"; }\nfunction o7(n) { for ( var i = 0; i < 25; ++i ) { var t = { i, \"aj\" + i }; } }\nfunction o8(n) { b_churn(n); }\nfunction o9(n) { x = b_id(x); y = b_id(\"t\" + n); }\nfunction o10(n) { x = { n, \"z\" + n }; b_mut(x); }\nfunction o11(n) { x = b_callc(n); }\nfunction o12(n) { c_keep(x); }\nfunction o13(n) { x = c_get(); }\nfunction o14(n) { x = b_inc() + b_inc() * 100; }\nfunction o15(n) { y = b_cat(b_mkstr(n)); x = b_cat(\"w\" + n); }\nfunction o16(n) { y = x; x = 0; }\nfunction o17(n) { x = { b_mkstr(n), b_mkstr(n + 1), b_mkarr(n) }; }\nfunction o18(n) { x = b_calla(n); }\nfunction o19(n) { x = b_deep(n); }\nfunction o20(n) { y = b_rec(n + 3); }\nfunction o21(n) { x = b_setg(\"set\" + n); }\nfunction o22(n) { var s = new b_S(n); x = s.m; y = s.z; b_keep(s); }\nfunction o23(n) { var s = b_new(n); s.m = \"am\" + n; x = s.m; }\nfunction o24(n) { x = b_args(b_mkstr(1), c_mk(2), @glo, \"e\" + n); }\nfunction o25(n) { var t = b_mkarr(n); for ( var v : t ) { x = v; b_churn(1); y = v; } }\nfunction o26(n) { c_keep(b_mkarr(n)); b_keep(c_get()); }\n";
static const char* SEE = "function see() { out(x, y, @glo, @num, @kep); }\n";
enum { NO = 27, NH = 5 };
static S subst(const S& s, const char* pre) { S o; for (char ch : s) if (ch == '@') o += pre; else o += ch; return o; }
struct Prog { wr::Bytes b; };
struct Sys { WRState* w; WRContext* a; WRContext* b; WRContext* c; };
static wr::Bytes* mono; static wr::Bytes* ma; static wr::Bytes* mb; static wr::Bytes* mcx; static wr::Bytes* self;
static S esc(const unsigned char* p, int n) { S o; for (int i = 0; i < n; ++i) o += sf("\\%03d", p[i]); return o; }
static WRValue g_bc[2];
static void prep() { if (mono) return; auto mk = [](const S& s) { wr::Bytes* b = new wr::Bytes; if (wr::compile(s, *b)) { fprintf(stderr, "P17 prep: %d\n%s\n", b->err, s.c_str()); abort(); } return b; };
	mono = mk(subst(MOD_A, "A_") + subst(SEE, "A_") + subst(MOD_B, "B_") + subst(MOD_C, "C_") + "function bsee() { out(B_glo, B_num, B_kep); }\nfunction csee() { out(C_glo, C_num, C_kep); }\n"); ma = mk(subst(MOD_A, "") + subst(SEE, "")); mb = mk(subst(MOD_B, "") + "function bsee() { out(glo, num, kep); }\n"); mcx = mk(subst(MOD_C, "") + "function csee() { out(glo, num, kep); }\n");
	self = mk("sys::importByteCode(hostB());\nvar filler = \"live\" + 1; sys::importByteCode(hostC()); out(filler);\n" + subst(MOD_A, "") + subst(SEE, "")); }
static void cbB(WRContext* c, const WRValue*, const int, WRValue& r, void*) { wr_makeString(c, &r, (char*)mb->p, mb->n); }
static void cbC(WRContext* c, const WRValue*, const int, WRValue& r, void*) { wr_makeString(c, &r, (char*)mcx->p, mcx->n); }
static bool build(Sys& s, int how, long hint) { s.w = wr_newState(128); wr_loadAllLibs(s.w); wr_registerFunction(s.w, "out", wr::cbOut); wr_registerFunction(s.w, "hostB", cbB); wr_registerFunction(s.w, "hostC", cbC); if (hint >= 0) wr_setAllocatedMemoryGCHint(s.w, (uint32_t)hint);
	if (how == 0) { s.a = s.b = s.c = wr_run(s.w, mono->p, mono->n); return s.a != 0; } if (how == 1) { s.a = wr_run(s.w, ma->p, ma->n); s.b = wr_import(s.a, mb->p, mb->n); s.c = wr_import(s.a, mcx->p, mcx->n); return s.a && s.b && s.c; } if (how == 2) { s.a = wr_run(s.w, self->p, self->n); s.b = s.c = 0; wr::g_out.clear(); return s.a != 0 && !wr_getLastError(s.w); }
	s.a = wr_run(s.w, ma->p, ma->n); s.b = wr_import(s.a, mb->p, mb->n); s.c = s.b ? wr_import(s.b, mcx->p, mcx->n) : 0; return s.a && s.b && s.c; } // 3: B imports C
static void apply(Sys& s, int op, int n) { WRValue v; v.init(n); if (op < NO) wr_callFunction(s.a, sf("o%d", op).c_str(), &v, 1); else { WRContext* b = s.b ? s.b : s.a; WRContext* cc = s.c ? s.c : s.a; if (!s.b) { if (op == NO || op == NO + 3) wr_callFunction(s.a, "o8", &v, 1); else wr_callFunction(s.a, "see"); } else switch (op - NO) { case 0: wr_callFunction(b, "b_churn", &v, 1); break; case 1: { WRValue t; wr_makeString(b, &t, "host"); wr_callFunction(b, "b_keep", &t, 1); break; } case 2: { WRValue* r = wr_callFunction(b, "b_mkarr", &v, 1); wr::g_out += r ? wr::render(*r) : "null"; break; } case 3: wr_callFunction(cc, "c_churn", &v, 1); break; case 4: { WRValue* r = wr_callFunction(cc, "c_deep", &v, 1); wr::g_out += r ? wr::render(*r) : "null"; break; } } } if (int e = wr_getLastError(s.w)) wr::g_out += sf("!E%d", e); wr_callFunction(s.a, "see"); if (s.b) { wr_callFunction(s.b, "bsee"); wr_callFunction(s.c, "csee"); } else wr::g_out += "-"; }
static void modules(Ctx& c) { prep(); int depth = c.thorough() ? 4 : 3; int how = 1 + c.choose(3); int hint = c.choose(2); int ops[8]; S path; for (int d = 0; d < depth; ++d) { ops[d] = c.choose(how == 2 ? NO : NO + NH); if (d == 1) c.split(); if (d == depth - 1 && c.tier == "quick" && d == 2 && ops[d] == 7) {} path += sf(d ? " %d" : "%d", ops[d]); }
	c.id(sf("mod:%d:%d:", how, hint) + path); S out[2]; for (int m = 0; m < 2; ++m) { wr::g_out.clear(); long live = wr::g_live; Sys s; if (!build(s, m ? how : 0, hint ? 0 : -1)) { c.fail("mod:build", sf("variant %d does not start: %d", m ? how : 0, wr_getLastError(s.w)), path); wr_destroyState(s.w); return; } if (m && how == 2) {} for (int d = 0; d < depth; ++d) { if (how == 2 && !m) { Sys t = s; t.b = 0; apply(t, ops[d], d + 1); } else apply(s, ops[d], d + 1); c.transition(); } out[m] = wr::g_out; if (m == 1 && (how & 1) && depth == 3) wr_destroyContext(s.a); wr_destroyState(s.w); if (wr::g_live != live) c.fail("mod:leak", sf("%ld blocks after ", wr::g_live - live) + path, path); }
	if (out[0] != out[1]) c.fail(sf("mod:diff:%d:%d:", how, hint) + path, "in modules: " + out[1].substr(0, 700) + "\nin one piece: " + out[0].substr(0, 700), path); c.trace(); c.state(hashs(out[1])); c.outcome(out[1]); }
// the main context is suspended (inside nested calls, with live locals) while the host calls into the imported modules or imports more
static void suspended(Ctx& c) { prep(); static const S A = "function run(n) { var l = { \"loc\" + n, n }; var s = \"t\" + n; var m = b_mkarr(n); var r = yield(s, m); out(l, s, m, r); inner(s, m); out(l, s, m); return s + \"!\"; }\nfunction inner(p, q) { var u = \"u\" + p; out(yield(u), p, q, u, b_inc()); return 0; }\n"; static wr::Bytes* ms = 0; static wr::Bytes* mm = 0; if (!ms) { ms = new wr::Bytes; mm = new wr::Bytes; S d; if (wr::compile(A + "var r1 = run(7); out(r1); run(8);", *ms) || wr::compile(A + subst(MOD_B, "B_") + subst(MOD_C, "C_") + "function a_mk(n) { return \"am\" + n; }\nvar r1 = run(7); out(r1); run(8);", *mm)) { fprintf(stderr, "P17 susp %d %d\n", ms->err, mm->err); abort(); } }
	int hint = c.choose(2), depth = c.thorough() ? 4 : 3, at[4]; S path; for (int d = 0; d < depth; ++d) { at[d] = c.choose(9); if (d == 1) c.split(); path += sf(" %d", at[d]); } c.id(sf("susp:%d:", hint) + path); S out[2];
	for (int m = 0; m < 2; ++m) { wr::g_out.clear(); long live = wr::g_live; WRState* w = wr_newState(128); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); if (hint) wr_setAllocatedMemoryGCHint(w, 0); WRContext* a = m ? wr_newContext(w, ms->p, ms->n) : wr_newContext(w, mm->p, mm->n); WRContext* b = 0; WRContext* cc = 0; if (m) { b = wr_import(a, mb->p, mb->n); cc = wr_import(a, mcx->p, mcx->n); if (!b || !cc) { c.fail("susp:import", sf("import into a context that has not run: %d", wr_getLastError(w)), path); wr_destroyState(w); return; } } wr_executeContext(a); int step = 0;
		while (wr_getYieldInfo(a) && step < 8) { WRValue* ya; int yn; WRValue* ret; wr_getYieldInfo(a, &ya, &yn, &ret); for (int i = 0; i < yn; ++i) wr::g_out += wr::render(ya[i]) + ","; if (m && step < depth) { WRValue v[4]; for (auto& t : v) t.init(3); WRValue* r = 0; switch (at[step]) { case 0: break; case 1: r = wr_callFunction(b, "b_churn", v, 1); if (r && r->asInt() != 3) c.fail("susp:call", path + ": wrong result", path); break; case 2: r = wr_callFunction(b, "b_mkarr", v, 1); if (r && wr::render(*r) != "[3,\"ba3\",[3]]") c.fail("susp:call2", path + ": wrong result " + (r ? wr::render(*r) : "null"), path); break; case 3: r = wr_callFunction(cc, "c_mk", v, 1); if (r && wr::render(*r).substr(0, 6) != "[\"cm3\"") c.fail("susp:call3", path, path); break; case 4: wr_import(a, mcx->p, mcx->n); break; case 5: wr_import(b, mcx->p, mcx->n); break; case 6: r = wr_callFunction(b, "b_callc", v, 1); break; case 7: r = wr_callFunction(b, "b_args", v, 4); break; case 8: wr_callFunction(b, "nosuch", v, 2); break; } if (at[step] && at[step] != 4 && at[step] != 5 && !r && !wr_getLastError(w)) c.fail("susp:silent", path + ": a call that was not made is not reported", path); c.transition(); } wr_getYieldInfo(a, 0, 0, &ret); wr_makeInt(ret, 40 + step); wr_continue(a); ++step; }
		if (int e = wr_getLastError(w)) wr::g_out += sf("!E%d", e); out[m] = wr::g_out; wr_destroyState(w); if (wr::g_live != live) c.fail("susp:leak", sf("%ld blocks", wr::g_live - live), path); }
	if (out[0] != out[1]) c.fail("susp:diff:" + path, "in modules: " + out[1] + "\nin one piece: " + out[0], path); c.trace(); c.state(hashs(out[1] + path)); c.outcome(out[1]); }
// the shape of a call across modules: parameters declared, arguments given, locals, form of the call, direction, how many functions and modules surround it
static void shapes(Ctx& c) {
	static const int nl[] = { 0, 1, 9 }, fill[] = { 0, 3, 30 }; int dir = c.choose(4), form = c.choose(8), d = c.choose(13), g = c.choose(13), l = nl[c.choose(3)], fl = fill[c.choose(3)]; c.split(); if (!c.thorough() && (fl == 3 || l == 1) && (d > 3 || g > 3)) throw Skip();
	S args, params, f, call; for (int i = 0; i < g; ++i) args += sf(i ? ", %s%d%s" : "%s%d%s", i & 1 ? "\"t" : "", 20 + i, i & 1 ? "\"" : ""); for (int i = 0; i < d; ++i) params += sf(i ? ", p%d" : "p%d", i);
	bool st = form == 7; f = (st ? "struct f(" : "function f(") + params + ") { "; for (int i = 0; i < l; ++i) f += sf("var l%d%s; ", i, st ? sf(" = %d", i).c_str() : ""); if (st) { for (int i = 0; i < d; ++i) f += sf("var m%d = p%d; ", i, i); f += "var z = 9; };\n"; }
	else { f += "out(\"in\""; for (int i = 0; i < d; ++i) f += sf(", p%d", i); for (int i = 0; i < l; ++i) f += sf(", l%d", i); f += "); "; for (int i = 0; i < l; ++i) f += sf("l%d = %d; ", i, i); for (int i = 0; i < d; ++i) f += sf("p%d = 99; ", i); f += d ? "return 300 + p0; }\n" : "return 300; }\n"; }
	S F = "f(" + args + ")";
	switch (form) { case 0: call = F + "; "; break; case 1: call = "var r = " + F + "; out(r); "; break; case 2: call = "out(1, 2 + " + F + ", 3); "; break; case 3: call = "if ( " + F + " > 5 ) { out(\"yes\"); } "; break; case 4: call = "var h = { 1, " + F + ", \"x\" }; out(h); "; break; case 5: call = "for ( var e : { 4, 5 } ) { " + F + "; out(e); } "; break; case 6: call = "return " + F + "; "; break; default: call = "var s = new " + F + "; out(s.z"; for (int i = 0; i < d; ++i) call += sf(", s.m%d", i); call += "); "; }
	S user = "function use() { var k1 = \"keep\"; var k2 = 55; " + call + "out(k1, k2); return 1; }\n", go = "function go() { var a = \"A\"; var b = use(); out(a, b); return b; }\n", fillers, tail; for (int i = 0; i < fl; ++i) fillers += sf("function fill%d(q) { return q + %d; }\n", i, i), tail += sf("function tail%d(q) { return q - %d; }\n", i, i);
	// 0: main calls f of the first import; 1: the import calls f of main; 2: one import calls f of another; 3: main calls f of the last of five
	std::vector<S> mods; if (dir == 0) { mods.push_back(go + user); mods.push_back(fillers + f + tail); } else if (dir == 1) { mods.push_back(fillers + go + f + tail); mods.push_back(user); } else if (dir == 2) { mods.push_back(go); mods.push_back(user); mods.push_back(fillers + f + tail); } else { mods.push_back(go + user); for (int i = 0; i < 4; ++i) mods.push_back(sf("function other%d(z) { return z; }\n", i) + (i == 3 ? fillers : S())); mods.push_back(f + tail); }
	S one; for (auto& m : mods) one += m; S out[2]; c.id(sf("shape:%d:%d:%d:%d:%d:%d", dir, form, d, g, l, fl)); c.note(one); c.transition();
	for (int m = 0; m < 2; ++m) { wr::g_out.clear(); long live = wr::g_live; std::vector<wr::Bytes*> bs; { std::vector<S> src = m ? mods : std::vector<S>(1, one); bool bad = false; for (auto& s : src) { wr::Bytes* b = new wr::Bytes; if (wr::compile(s.c_str(), *b)) bad = true; bs.push_back(b); } if (bad) wr::g_out = "COMPILE"; }
		if (wr::g_out.empty()) { WRState* w = wr_newState(200); wr_registerFunction(w, "out", wr::cbOut); WRContext* a = wr_run(w, bs[0]->p, bs[0]->n); for (size_t i = 1; a && i < bs.size(); ++i) if (!wr_import(a, bs[i]->p, bs[i]->n)) wr::g_out += "!import"; WRValue* r = a ? wr_callFunction(a, "go") : 0; wr::g_out += r ? wr::render(*r) : S("null"); r = a ? wr_callFunction(a, "go") : 0; wr::g_out += r ? wr::render(*r) : S("null"); if (int e = wr_getLastError(w)) wr::g_out += sf("!E%d", e); wr_destroyState(w); }
		for (auto* b : bs) delete b; out[m] = wr::g_out; if (wr::g_live != live) c.fail("shape:leak", sf("%ld blocks", wr::g_live - live), one); }
	if (out[0] != out[1]) c.fail(sf("shape:%d:%d:%d:%d:%d:%d", dir, form, d, g, l, fl), "in modules: " + out[1].substr(0, 500) + "\nin one piece: " + out[0].substr(0, 500), one); c.trace(); c.state(hashs(one)); c.outcome(out[1]); }
MC_MAIN({ "shapes", shapes, false }, { "modules", modules, false }, { "suspended", suspended, false })
