// P16: host interoperation. Histories of host calls, callbacks, shared containers, globals and struct instances against an
// abstract model; conversions of every kind of value into buffers of every size.
#include "wr.h"
#include <climits>
#include <cmath>
#include <functional>
using namespace mc;
typedef std::string S;
static S q(const S& s) { return wr::quote(s.data(), s.size()); }
static S lit(const S& s) { S o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if (ch == 0) o += "\\000"; else o += (char)ch; } return o + "\""; }
// the names of everything used below, so that a state looks the same in every scenario
struct Host { WRState* w = 0; wr::Bytes b; WRContext* c = 0; long live;
	Host(const S& src, int flags = WR_INCLUDE_GLOBALS, bool libs = false, std::function<void(WRState*)> setup = 0, int stack = 64, long hint = -1) { live = wr::g_live; wr::g_out.clear(); if (wr::compile(src, b, flags)) return; w = wr_newState(stack); if (libs) wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); if (setup) setup(w); if (hint >= 0) wr_setAllocatedMemoryGCHint(w, (uint32_t)hint); c = wr_run(w, b.p, b.n); }
	void close() { if (w) wr_destroyState(w); w = 0; b.wrfree(); }
	~Host() { if (w) wr_destroyState(w); } };
// ------------------------------------------------------------------------------------------------ conversions
struct K { const char* kind; S expr; long i; double f; S s; int n; };
static std::vector<K> kinds() { std::vector<K> v; for (int i : { 0, 1, -1, 7, -42, 1000000, INT_MAX, INT_MIN }) v.push_back({ "int", i == INT_MIN ? S("-2147483647 - 1") : sf("%d", i), i, (double)(float)i, sf("%d", i), 0 });
	for (double d : { 0.5, 1.0, -1.5, 100000.0, 0.03125, 1234.25, -0.25, 4e9, 1e20, -1e30 }) v.push_back({ "float", d < 0 ? sf("0.0 - %.5f", -d) : sf("%.5f", d), (long)(fabs(d) < 2e9 ? d : 0), (double)(float)d, "", 0 });
	for (int n : { 0, 1, 5, 19, 20, 21, 46, 47, 48, 60 }) { S s; for (int k = 0; k < n; ++k) s += (char)('a' + k % 26); v.push_back({ "string", lit(s), 0, 0, s, n }); } v.push_back({ "string", lit(S("a\0b", 3)), 0, 0, S("a\0b", 3), 3 });
	v.push_back({ "array", "{ 1, 2, 3 }", 0, 0, "", 3 }); v.push_back({ "array", "{ \"x\", 2.5 }", 0, 0, "", 2 }); v.push_back({ "hash", "{ 1:2, 3:4 }", 0, 0, "", 2 }); return v; }
static const K* g_k; static S g_err; static long g_calls;
static S full(const WRValue& v) { unsigned n = 9999; char* p = v.asMallocString(&n); S r = p ? S(p, strlen(p) < n && n < 9999 ? n : strlen(p)) : S("(null)"); if (p && n != 9999 && p[n]) r += "<unterminated>"; if (p) g_free(p); return r; }
static void cbConv(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr) { ++g_calls; if (argn != 2 || argv[1].asInt() != 99) { g_err = sf("argn %d", argn); return; } const WRValue& v = argv[0]; const K& k = *g_k; S kd = k.kind; int len = -7;
	auto bad = [&](const S& m) { if (g_err.empty()) g_err = m; }; if (v.isInt() != (kd == "int")) bad("isInt"); if (v.isFloat() != (kd == "float")) bad("isFloat"); if (v.isString(&len) != (kd == "string")) bad("isString"); if (kd == "string" && len != k.n) bad("string length"); if (v.isWrenchArray(&len) != (kd == "array")) bad("isWrenchArray"); if (kd == "array" && len != k.n) bad("array length"); if (v.isHashTable(&len) != (kd == "hash")) bad("isHashTable"); if (kd == "hash" && len != k.n) bad("hash members"); if (v.isStruct() != (kd == "struct")) bad("isStruct"); if (v.isRawArray()) bad("isRawArray");
	if (v.arraySize() != (kd == "string" || kd == "array" ? k.n : -1)) bad(sf("arraySize %d", v.arraySize()));
	if (kd == "int" && (v.asInt() != k.i || v.asFloat() != (float)k.i)) bad(sf("asInt/asFloat %d %g", v.asInt(), v.asFloat())); if (kd == "float" && v.asFloat() != (float)k.f) bad(sf("asFloat %.9g", v.asFloat())); if (kd == "float" && fabs(k.f) < 2e9 && v.asInt() != (int)k.f) bad(sf("asInt %d", v.asInt())); if (kd != "int" && kd != "float") { v.asInt(); v.asFloat(); }
	unsigned al = 12345; void* ap = v.array(&al); if ((ap != 0) != (kd == "string")) bad("array()"); if (kd == "string") { if (al != k.s.size() || memcmp(ap, k.s.data(), al)) bad("array() contents"); }
	S f = full(v); if ((kd == "int" || kd == "string") && f != k.s) bad("asMallocString <" + f + ">"); if (kd == "float" && !(fabs(strtod(f.c_str(), 0) - k.f) <= 1e-5 + fabs(k.f) * 1e-6)) bad("asMallocString <" + f + ">"); { WRValue::MallocStrScoped ms(v); if (!(const char*)ms || ms.size() != f.size() || memcmp((const char*)ms, f.data(), f.size())) bad("MallocStrScoped"); }
	for (unsigned L = 1; L <= f.size() + 3; ++L) { char* p = (char*)malloc(L); memset(p, 0x5a, L); unsigned n = 777; if (v.asString(p, L, &n) != p) bad("asString does not pass back the buffer"); unsigned w = (unsigned)std::min<size_t>(f.size(), L - 1); if (n != w || memcmp(p, f.data(), w) || p[w]) bad(sf("asString(maxLen %u) gives %u <", L, n) + S(p, strnlen(p, L)) + "> for <" + f + ">"); v.asString(p, L); free(p); }
	{ char b[512]; unsigned n = 0; v.asString(b, 0, &n); if (n != f.size() || memcmp(b, f.data(), n)) bad("asString, unlimited"); }
	char ref[2048]; for (int hex = 0; hex < 2; ++hex) { unsigned rn = 0; v.technicalAsString(ref, sizeof ref, hex, &rn); if (rn != strlen(ref) && kd != "string") bad("technicalAsString length"); for (unsigned L = 1; L <= rn + 2; ++L) { char* p = (char*)malloc(L); unsigned n = 0; v.technicalAsString(p, L, hex, &n); unsigned w = std::min(rn, L - 1); if (n != w || memcmp(p, ref, w) || p[w]) bad(sf("technicalAsString(maxLen %u)", L)); free(p); } }
	WRValue copy = v; if (copy.getHash() != v.getHash()) bad("getHash"); wr_makeInt(&ret, 5); }
static void conv(Ctx& c) { static std::vector<K> ks = kinds(); static const char* how[] = { "h(%s, 99)", "var v = %s; h(v, 99)", "var a = { 5, %s, 6 }; h(a[1], 99)", "var t = { 7 : %s }; h(t[7], 99)", "var t = { \"k\" : %s }; h(t.k, 99)", "var o = new P(); o.m = %s; h(o.m, 99)", "function f(x) { h(x, 99); } f(%s)", "function f(x) { var l; l = x; h(l, 99); } f(%s)", "function f() { var l = { %s }; for ( var e : l ) { h(e, 99); } } f()", "var a = { { %s } }; h(a[0][0], 99)", "function f() { return %s; } h(f(), 99)", "var a = { 1 }; a[1] = %s; h(a[1], 99)" }; int k = c.choose((int)ks.size()), w = c.choose(12); c.split(); S e = how[w]; size_t p = e.find("%s"); e.replace(p, 2, ks[k].expr); S code = "struct P { var m; };\n" + e + "; out(\"end\");";
	c.id(sf("conv:%d:%d", k, w)); c.note(code); for (int gc = 0; gc < 2; ++gc) { g_k = &ks[k]; g_err.clear(); g_calls = 0; long live = wr::g_live; { Host h(code, WR_INCLUDE_GLOBALS, false, [](WRState* s) { wr_registerFunction(s, "h", cbConv); }, 64, gc ? 0 : -1); if (!h.w) { if (ks[k].kind[0] == 'a' || ks[k].kind[0] == 'h') throw Skip(); c.fail("conv:compile", "does not compile", code); return; } c.transition(); if (g_err.size()) c.fail("conv:" + g_err.substr(0, g_err.find_first_of("<(")), g_err, code); else if (g_calls != 1 || wr::g_out != "\"end\";") c.fail("conv:run", sf("%ld calls, output ", g_calls) + wr::g_out, code); h.close(); } if (wr::g_live != live) c.fail("conv:leak", sf("%ld blocks", wr::g_live - live), code); } c.trace(); c.state(hashs(code)); c.outcome(code); }
// ------------------------------------------------------------------------------------------------ host calls
struct A { const char* name; S shown; std::function<void(WRContext*, WRValue*)> make; };
static WRValue g_box;
static const std::vector<A>& argsA() { static std::vector<A> v; if (v.empty()) { v.push_back({ "i", "7", [](WRContext*, WRValue* x) { wr_makeInt(x, 7); } }); v.push_back({ "neg", "-2147483648", [](WRContext*, WRValue* x) { x->setInt(INT_MIN); } }); v.push_back({ "f", "f1.5", [](WRContext*, WRValue* x) { wr_makeFloat(x, 1.5f); } }); v.push_back({ "s", "\"str\"", [](WRContext* c, WRValue* x) { wr_makeString(c, x, "str"); } }); v.push_back({ "s0", "\"ab\"", [](WRContext* c, WRValue* x) { x->setString(c, "abcdef", 2); } }); v.push_back({ "ga", "[1,\"two2\"]", [](WRContext* c, WRValue* x) { *x = *wr_getGlobalRef(c, "ga"); } }); v.push_back({ "gh", "{\"k\":3}", [](WRContext* c, WRValue* x) { *x = *wr_getGlobalRef(c, "gh"); } }); v.push_back({ "ref", "8", [](WRContext* c, WRValue* x) { g_box.init(8); x->r = &g_box; x->p2 = WR_REF; } }); } return v; }
static void calls(Ctx& c) { static const char* fn[] = { "f0", "f1", "f2", "f3", "fa", "fs", "fr" }; int f = c.choose(7), n = c.choose(5); int ix[4]; for (int i = 0; i < n; ++i) ix[i] = c.choose(i < 2 ? 8 : 3); int how = c.choose(4); c.split(); int hint = c.choose(2), flags = c.choose(2) ? 3 : 1;
	static const S src = "var ga = { 1, \"two\" + 2 }; var gh = { \"k\" : 3 }; var g0 = 0; var g1 = 0;\nfunction f0() { g0 = g0 + 1; return \"zero\" + g0; }\nfunction f1(a) { g0 = a; return g0; }\nfunction f2(a, b) { g0 = a; g1 = b; return b; }\nfunction f3(a, b, d) { var l = { a, b, d }; for ( var i = 0; i < 30; ++i ) { var t = \"t\" + i; } return l; }\nfunction fa(a, b) { g1 = { a, b }; return g1; }\nfunction fs(a) { }\nfunction fr(a, b) { if ( b == 0 ) { return a; } return fr(a, 0); }\n";
	S want[4]; for (int i = 0; i < 4; ++i) want[i] = i < n ? argsA()[ix[i]].shown : "0"; if (how == 3 && n) throw Skip(); S ret, g0 = "0", g1 = "0"; switch (f) { case 0: ret = "\"zero1\""; g0 = "1"; break; case 1: ret = g0 = want[0]; break; case 2: ret = want[1]; g0 = want[0]; g1 = want[1]; break; case 3: ret = "[" + want[0] + "," + want[1] + "," + want[2] + "]"; break; case 4: ret = g1 = "[" + want[0] + "," + want[1] + "]"; break; case 5: ret = "0"; break; case 6: ret = want[0]; break; }
	for (int i = 0; i < n; ++i) if (ix[i] == 7 && f == 6) throw Skip();
	S id = sf("call:%s:%d:%d:%d:%d", fn[f], n, how, n > 0 ? ix[0] : -1, n > 1 ? ix[1] : -1); c.id(id); c.note(src); long live = wr::g_live; { Host h(src, flags, false, 0, 64, hint ? 0 : -1); if (!h.c) { c.fail("calls:run", "script did not run", src); return; }
		for (int round = 0; round < 2; ++round) { if (round && (f == 0)) { ret = "\"zero2\""; g0 = "2"; } WRValue av[4]; for (int i = 0; i < n; ++i) { av[i].init(); argsA()[ix[i]].make(h.c, av + i); } WRValue* r = 0; WRFunction* p = wr_getFunction(h.c, fn[f]); if (!p) { c.fail(id, "wr_getFunction does not find the function", src); return; } if (p != wr_getFunction(h.c, wr_hashStr(fn[f]))) c.fail(id, "wr_getFunction by hash differs", src);
			if (how == 0) r = wr_callFunction(h.c, fn[f], av, n); else if (how == 1) r = wr_callFunction(h.c, (int32_t)wr_hashStr(fn[f]), av, n); else if (how == 2) r = wr_callFunction(h.c, p, av, n); else r = wr_callFunction(h.c, fn[f]); c.transition(); if (!r) { c.fail(id, sf("call failed with error %d", wr_getLastError(h.w)), src); return; } S got = wr::render(*r); if (got != ret) c.fail("ret:" + id, "returned " + got + " instead of " + ret, src); if (wr::render(*wr_returnValueFromLastCall(h.c)) != ret) c.fail("last:" + id, "wr_returnValueFromLastCall gives " + wr::render(*wr_returnValueFromLastCall(h.c)) + " instead of " + ret, src); if (wr_getLastError(h.w)) c.fail("err:" + id, "error after a successful call", src);
			WRValue* a0 = wr_getGlobalRef(h.c, "g0"); WRValue* a1 = wr_getGlobalRef(h.c, "::g1"); if (!a0 || !a1) { c.fail("glob:" + id, "global not found", src); return; } if (wr::render(*a0) != g0 || wr::render(*a1) != g1) c.fail("globals:" + id, "globals are " + wr::render(*a0) + ", " + wr::render(*a1) + " instead of " + g0 + ", " + g1, src); for (int i = 0; i < n; ++i) if (ix[i] == 7 && (g_box.asInt() != 8)) c.fail("box:" + id, "the host's value was changed", src); } h.close(); }
	if (wr::g_live != live) c.fail("calls:leak", sf("%ld blocks", wr::g_live - live), src); c.trace(); c.state(hashs(id)); c.outcome(id + ret); }
// ------------------------------------------------------------------------------------------------ callbacks
struct Rec { int tag; }; static S g_log;
static void cbRec(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr) { g_log += sf("%d(", usr ? ((Rec*)usr)->tag : -1); for (int i = 0; i < argn; ++i) g_log += (i ? "," : "") + wr::render(argv[i]); g_log += ")"; switch (usr ? ((Rec*)usr)->tag % 5 : 4) { case 0: wr_makeInt(&ret, argn + 100); break; case 1: wr_makeFloat(&ret, argn + 0.5f); break; case 2: wr_makeString(c, &ret, "result"); break; case 3: if (argn) ret = argv[0].deref(); break; case 4: break; } }
static void callbacks(Ctx& c) { static Rec rs[8] = { { 0 }, { 1 }, { 2 }, { 3 }, { 4 }, { 5 }, { 6 }, { 7 } }; int tag = c.choose(6), n = c.choose(9), pl = c.choose(7), again = c.choose(3); c.split(); static const char* ar[] = { "1", "2.5", "\"s\"", "loc", "arr[1]", "hs.k", "arr", "gg + 1" }; static const S sh[] = { "1", "f2.5", "\"s\"", "11", "\"el\"", "21", "[20,\"el\"]", "6" }; S a, w; for (int i = 0; i < n; ++i) { a += (i ? ", " : "") + S(ar[i]); w += (i ? "," : "") + sh[i]; }
	int real = again == 1 ? 1 : tag; bool nul = tag == 5 && again != 1; S call = "host(" + a + ")", log = sf("%d(", nul ? -1 : real) + w + ")"; S rv; switch (nul ? 4 : real % 5) { case 0: rv = sf("%d", n + 100); break; case 1: rv = wr::fbits(n + 0.5f); break; case 2: rv = "\"result\""; break; case 3: rv = n ? sh[0] : "0"; break; case 4: rv = "0"; break; } S body, want; int reps = 1;
	switch (pl) { case 0: body = call + ";"; break; case 1: body = "out(" + call + ");"; want = rv + ";"; break; case 2: body = "var r = " + call + "; out(r);"; want = rv + ";"; break; case 3: body = "out({ 5, " + call + " });"; want = "[5," + rv + "];"; break; case 4: body = "for ( var i = 0; i < 3; ++i ) { " + call + "; }"; reps = 3; break; case 5: body = "out(id(" + call + "), 1);"; want = rv + " 1;"; break; case 6: body = "var x = { 1 : 0 }; x[1] = " + call + "; out(x[1], gg);"; want = rv + " 5;"; break; }
	S wl; for (int i = 0; i < reps; ++i) wl += log; S src = "var gg = 5; function id(v) { return v; } function run() { var loc = 11; var arr = { 20, \"el\" }; var hs = { \"k\" : 21 }; " + body + " out(\"end\", loc, arr, hs.k); } run();"; want += "\"end\" 11 [20,\"el\"] 21;"; S id = sf("cb:%d:%d:%d:%d", tag, n, pl, again); c.id(id); c.note(src);
	for (int hint = 0; hint < 2; ++hint) { g_log.clear(); long live = wr::g_live; { Host h(src, 1, false, [&](WRState* s) { wr_registerFunction(s, "host", cbRec, tag == 5 ? 0 : (void*)&rs[tag]); if (again == 1) wr_registerFunction(s, "host", cbRec, &rs[1]); if (again == 2) wr_registerFunction(s, "hos", cbRec, &rs[7]), wr_registerFunction(s, "host2", cbRec, &rs[6]); }, 64, hint ? 0 : -1); c.transition(); if (!h.w) { c.fail("cb:compile", "does not compile", src); return; } if (wr::g_out != want || wr_getLastError(h.w)) c.fail("out:" + id, "output " + wr::g_out + " instead of " + want, src); if (g_log != wl) c.fail("log:" + id, "calls " + g_log + " instead of " + wl, src); h.close(); } if (wr::g_live != live) c.fail("cb:leak", sf("%ld blocks", wr::g_live - live), src); } c.trace(); c.state(hashs(src)); c.outcome(want + wl); }
// ------------------------------------------------------------------------------------------------ library constants and functions
static void libAdd(WRValue* top, const int argn, WRContext*) { int s = 0; for (int i = 1; i <= argn; ++i) s = s * 10 + top[-i].asInt(); wr_makeInt(top, s); }
static void constants(Ctx& c) { int i = c.choose(10), f = c.choose(8), pl = c.choose(6); c.split(); static const int iv[] = { 0, 1, -1, 255, -256, 65536, INT_MAX, INT_MIN, 0x55555555, -2 }; static const float fv[] = { 0.f, 1.f, -1.5f, 3.14159265f, 1e30f, -1e-20f, 0.1f, 16777217.f }; S is = sf("%d", iv[i]), fs = wr::fbits(fv[f]), body, want;
	switch (pl) { case 0: body = "out(lib::I, lib::F);"; want = is + " " + fs + ";"; break; case 1: body = "var a = lib::I; var b = lib::F; out(a, b);"; want = is + " " + fs + ";"; break; case 2: body = "out({ lib::I, lib::F });"; want = "[" + is + "," + fs + "];"; break; case 3: body = "function f(x, y) { out(y, x); } f(lib::I, lib::F);"; want = fs + " " + is + ";"; break; case 4: body = "out(lib::add(1, 2, 3), lib::add(), lib::add(lib::one), lib::one);"; want = "321 0 1 1;"; break; case 5: body = "var n = 0; while ( n < 3 ) { n = n + lib::one; out(lib::I == " + (iv[i] == INT_MIN ? S("(-2147483647 - 1)") : is) + "); }"; want = "1;1;1;"; break; }
	S id = sf("const:%d:%d:%d", i, f, pl); c.id(id); c.note(body); long live = wr::g_live; { Host h(body, 1, pl & 1, [&](WRState* s) { wr_registerLibraryConstant(s, "lib::I", 12345); wr_registerLibraryConstant(s, "lib::I", (int32_t)iv[i]); wr_registerLibraryConstant(s, "lib::F", fv[f]); wr_registerLibraryConstant(s, "lib::one", (int32_t)1); wr_registerLibraryFunction(s, "lib::add", libAdd); }); c.transition(); if (!h.w || wr::g_out != want || wr_getLastError(h.w)) c.fail(id, "output " + wr::g_out + " instead of " + want, body); if (h.w) { WRValue a[2]; a[0].init(4); a[1].init(5); WRValue* r = wr_callFunction(h.c, "lib::add", a, 2); if (!r || r->asInt() != 45 + 9) c.fail("lib:" + id, sf("lib::add(4, 5) from the host gives %d", r ? r->asInt() : -1), body); r = wr_callFunction(h.c, (int32_t)wr_hashStr("lib::add")); if (!r || r->asInt() != 0) c.fail("lib0:" + id, "lib::add() from the host", body); } h.close(); } if (wr::g_live != live) c.fail("const:leak", sf("%ld blocks", wr::g_live - live), body); c.trace(); c.state(hashs(id)); c.outcome(want); }
// ------------------------------------------------------------------------------------------------ histories
// one script with state, driven by the host; the model is a handful of values
struct M { int g = 1; S s = "\"s0\""; std::vector<S> a = { "1", "\"e1\"" }; S keep = "0"; int cnt = 0; std::map<S, S> h; bool reg = false; };
static const char* HS = "var g = 1; var s = \"s\" + 0; var a = { 1, \"e\" + 1 }; var keep = 0; var cnt = 0; var h = { \"z\" : \"v\" + 0 };\nstruct P(x, y) { var px = x; var py = y; var pz = \"z\" + x; };\nstruct F(x) { var fa = x; var fb = nosuch(x); };\nfunction getg() { return g; }\nfunction setg(v) { g = v; return g + 1; }\nfunction sets(v) { s = v + \"!\"; return s; }\nfunction push(v) { a[a._count] = v; return a._count; }\nfunction churn() { for ( var i = 0; i < 40; ++i ) { var t = { i, \"junk\" + i }; } return 0; }\nfunction putk(k, v) { h[k] = v; return h._count; }\nfunction store(v) { keep = v; return keep; }\nfunction px(p) { return p.px; }\nfunction setp(p, v) { p.py = v; return p; }\nfunction fail() { cnt = cnt + 1; return nosuch(cnt); }\nfunction late() { return newfn(5); }\n";
static void cbNew(WRContext*, const WRValue* argv, const int argn, WRValue& r, void*) { wr_makeInt(&r, argn ? argv[0].asInt() * 2 : -1); }
enum { NOP = 28 };
static const char* opn[] = { "setg", "sets", "push", "churn", "putk", "store-str", "store-arr", "fail", "missing", "refset", "refstr", "late", "register", "libcall", "inst", "inst-none", "setp", "refarr", "refhash", "hint0", "getmissing", "sets-self", "store-inst", "px", "iter", "ctx2", "serial", "inst-fail" };
static void hist(Ctx& c) { int depth = c.thorough() ? 4 : 3, hint = c.choose(2); M m; m.h["\"z\""] = "\"v0\""; Host hh(HS, 1, true, 0, 64, hint ? 0 : -1); S path; if (!hh.c) { c.choose(1); c.split(); c.fail("hist:compile", "does not run", HS); return; } WRContext* x = hh.c; WRState* w = hh.w; std::vector<WRValue*> inst; std::vector<std::pair<S, S>> im; std::vector<WRContext*> others;
	struct Del { std::vector<WRValue*>& v; ~Del() { for (auto p : v) delete p; } } del{ inst };
	auto expect = [&](const char* what, WRValue* r, const S& want) { S got = r ? wr::render(*r) : S("(null)") ; if (got != want) c.fail(S("hist:") + what, path + ": " + what + " gives " + got + " instead of " + want + sf(" (error %d)", wr_getLastError(w)), HS); if (r && wr_getLastError(w)) c.fail(S("hist:err:") + what, path + sf(": error %d", wr_getLastError(w)), HS); };
	for (int d = 0; d < depth; ++d) { int op = c.choose(NOP); if (d == 1) c.split(); path += (d ? " " : "") + S(opn[op]); c.id("hist:" + path); c.transition(); WRValue v[2]; v[0].init(); v[1].init();
		switch (op) { case 0: v[0].init(10 + d); expect("setg", wr_callFunction(x, "setg", v, 1), sf("%d", 11 + d)); m.g = 10 + d; break; case 1: wr_makeString(x, v, "new"); expect("sets", wr_callFunction(x, "sets", v, 1), "\"new!\""); m.s = "\"new!\""; break; case 21: v[0] = *wr_getGlobalRef(x, "s"); if (m.s[0] == '"') m.s = m.s.substr(0, m.s.size() - 1) + "!\""; expect("sets", wr_callFunction(x, "sets", v, 1), m.s); break;
		case 2: wr_makeString(x, v, "pushed", 4); m.a.push_back("\"push\""); expect("push", wr_callFunction(x, "push", v, 1), sf("%d", (int)m.a.size())); break; case 3: expect("churn", wr_callFunction(x, "churn"), "0"); break;
		case 4: wr_makeString(x, v, d & 1 ? "k1" : "k2"); v[1].init((float)d + 0.5f); m.h[d & 1 ? "\"k1\"" : "\"k2\""] = wr::fbits(d + 0.5f); expect("putk", wr_callFunction(x, (int32_t)wr_hashStr("putk"), v, 2), sf("%d", (int)m.h.size())); break;
		case 5: wr_makeString(x, v, "kept"); m.keep = "\"kept\""; expect("store", wr_callFunction(x, wr_getFunction(x, "store"), v, 1), m.keep); break; case 6: { v[0].indexArray(x, 2, true)->init(9); WRValue* e = v[0].indexArray(x, 0, true); e->setString(x, "in"); if (v[0].indexArray(x, 3, false)) c.fail("hist:index", "element beyond the end exists", HS); m.keep = "[\"in\",0,9]"; expect("store", wr_callFunction(x, "store", v, 1), m.keep); break; }
		case 7: { WRValue* r = wr_callFunction(x, "fail"); m.cnt++; if (r || wr_getLastError(w) == 0) c.fail("hist:fail", path + ": a call of an unknown function succeeded", HS); break; } case 8: { WRValue* r = wr_callFunction(x, "nosuchfn", v, 1); if (r || wr_getLastError(w) != WR_ERR_wrench_function_not_found) c.fail("hist:missing", path + sf(": missing function gives error %d", wr_getLastError(w)), HS); if (wr_getFunction(x, "nosuchfn")) c.fail("hist:getmissing", path + ": found", HS); break; }
		case 9: { WRValue* r = wr_getGlobalRef(x, "g"); if (!r) { c.fail("hist:ref", "g not found", HS); return; } r->setInt(70 + d); m.g = 70 + d; break; } case 10: { WRValue* r = wr_getGlobalRef(x, "::s"); if (!r) { c.fail("hist:ref", "s not found", HS); return; } wr_makeString(x, r, "byref"); m.s = "\"byref\""; break; }
		case 11: { WRValue* r = wr_callFunction(x, "late"); if (m.reg) expect("late", r, "10"); else if (r || !wr_getLastError(w)) c.fail("hist:late", path + ": unregistered function succeeded", HS); break; } case 12: wr_registerFunction(w, "newfn", cbNew); m.reg = true; break;
		case 13: wr_makeString(x, v, "hello"); v[1].init(2); expect("str::left", wr_callFunction(x, "str::left", v, 2), "\"he\""); expect("math", wr_callFunction(x, "str::strlen", v, 1), "5"); break;
		case 14: { WRValue* p = new WRValue; p->init(); inst.push_back(p); v[0].init(3 + d); wr_makeString(x, v + 1, "yy"); WRValue* r = wr_instanceStruct(p, x, "P", v, 2); if (r != p || !p->isStruct()) { c.fail("hist:inst", path + ": wr_instanceStruct failed", HS); return; } im.push_back({ sf("%d", 3 + d), "\"yy\"" }); break; }
		case 27: { WRValue t; t.init(4); v[0].init(1); if (wr_instanceStruct(&t, x, "F", v, 1) || t.asInt() != 4 || !wr_getLastError(w)) c.fail("hist:instfail", path + ": instance of a struct whose constructor failed", HS); break; }
		case 15: { WRValue t; t.init(4); if (wr_instanceStruct(&t, x, "Nope") || wr_instanceStruct(&t, x, "churn") || t.asInt() != 4) c.fail("hist:instnone", path + ": instance of something that is no struct", HS); break; }
		case 16: if (inst.empty()) throw Skip(); v[0] = *inst.back(); wr_makeString(x, v + 1, "set"); im.back().second = "\"set\""; expect("setp", wr_callFunction(x, "setp", v, 2), "struct"); break; case 23: if (inst.empty()) throw Skip(); v[0] = *inst[0]; expect("px", wr_callFunction(x, "px", v, 1), im[0].first); break; case 22: if (inst.empty()) throw Skip(); v[0] = *inst.back(); m.keep = "struct"; expect("store", wr_callFunction(x, "store", v, 1), "struct"); break;
		case 17: { WRValue* r = wr_getGlobalRef(x, "a"); WRValue* e = r->indexArray(x, (int)m.a.size() + 1, true); e->init(55); m.a.push_back("0"); m.a.push_back("55"); break; } case 18: { WRValue* r = wr_getGlobalRef(x, "h"); WRValue* e = r->indexHash(x, wr_hashStr("z"), false); if (!e || wr::render(*e) != m.h["\"z\""]) c.fail("hist:indexHash", path + ": indexHash", HS); else { e->init(77 + d); m.h["\"z\""] = sf("%d", 77 + d); } if (r->indexHash(x, wr_hashStr("absent"), false)) c.fail("hist:indexHash2", path + ": absent key found", HS); break; }
		case 19: wr_setAllocatedMemoryGCHint(w, 0); break; case 20: if (wr_getGlobalRef(x, "nosuch") || wr_getGlobalRef(x, "") || wr_getGlobalRef(x, 0) || wr_getGlobalRef(x, "getg")) c.fail("hist:noglobal", path + ": unknown global found", HS); break;
		case 24: { int k = 0; WRValue* r = wr_getGlobalRef(x, "a"); for (WRValue::Iterator it = r->begin(); it != r->end(); ++it, ++k) { if ((*it).index != k || !(*it).value || (k < (int)m.a.size() && wr::render(*(*it).value) != m.a[k])) c.fail("hist:iter", path + ": iterator", HS); } if (k != (int)m.a.size()) c.fail("hist:iter", path + sf(": iterated %d of %d", k, (int)m.a.size()), HS); S t; r = wr_getGlobalRef(x, "s"); for (WRValue::Iterator it = r->begin(); it != r->end(); ++it) t += (*it).character; if (q(t) != m.s) c.fail("hist:iterstr", path + ": iterating a string gives " + t, HS); break; }
		case 25: { WRContext* y = wr_run(w, hh.b.p, hh.b.n); if (!y) { c.fail("hist:ctx2", path + ": second context", HS); return; } WRValue k; k.init(500); wr_callFunction(y, "setg", &k, 1); WRValue* r = wr_callFunction(y, "getg"); expect("other context", r, "500"); if (d & 1) wr_destroyContext(y); break; }
		case 26: { char* b = 0; int n = 0; if (!wr_serialize(&b, &n, *wr_getGlobalRef(x, "h"))) { c.fail("hist:serial", path + ": serialize", HS); return; } if (!wr_deserialize(x, v[0], b, n)) c.fail("hist:serial", path + ": deserialize", HS); wr_free(b); m.keep = "{"; { std::vector<S> kv; for (auto& e : m.h) kv.push_back(e.first + ":" + e.second); std::sort(kv.begin(), kv.end()); for (size_t i = 0; i < kv.size(); ++i) m.keep += (i ? "," : "") + kv[i]; } m.keep += "}"; expect("store", wr_callFunction(x, "store", v, 1), m.keep); break; } }
		// everything observable, after every step
		auto chk = [&](const char* n, const S& want) { WRValue* r = wr_getGlobalRef(x, n); S got = r ? wr::render(*r) : "(null)"; if (got != want) c.fail(sf("hist:state:%s:%s", n, opn[op]), path + ": " + n + " is " + got + " instead of " + want, HS); }; chk("g", sf("%d", m.g)); chk("s", m.s); chk("keep", m.keep); chk("cnt", sf("%d", m.cnt)); S al = "["; for (size_t i = 0; i < m.a.size(); ++i) al += (i ? "," : "") + m.a[i]; chk("a", al + "]"); S hl = "{"; { std::vector<S> kv; for (auto& e : m.h) kv.push_back(e.first + ":" + e.second); std::sort(kv.begin(), kv.end()); for (size_t i = 0; i < kv.size(); ++i) hl += (i ? "," : "") + kv[i]; } chk("h", hl + "}");
		for (size_t i = 0; i < inst.size(); ++i) { WRValue* a = inst[i]->indexStruct("px"); WRValue* b = inst[i]->indexStruct("py"); WRValue* z = inst[i]->indexStruct("pz"); if (!a || !b || !z || wr::render(*a) != im[i].first || wr::render(*b) != im[i].second || wr::render(*z) != "\"z" + im[i].first + "\"") c.fail(S("hist:struct:") + opn[op], path + ": the struct instance is " + (a ? wr::render(*a) : "-") + " " + (b ? wr::render(*b) : "-") + " " + (z ? wr::render(*z) : "-"), HS); if (inst[i]->indexStruct("nope")) c.fail("hist:nomember", path + ": unknown member", HS); }
		c.state(hashs(al + hl + m.keep + m.s + sf("%d %d %d %d", m.g, m.cnt, m.reg, (int)inst.size()))); if (c.failed) break; }
	long live = hh.live; hh.close(); if (wr::g_live != live) c.fail("hist:leak", path + sf(": %ld blocks", wr::g_live - live), HS); c.trace(); c.outcome(path); }
// ------------------------------------------------------------------------------------------------ containers shared with the host
static const char* CS = "var box = 0; var r = 0;\nfunction take(b) { box = b; return b._count; }\nfunction drop() { box = 0; return 0; }\nfunction rd(b, k) { return b[k]; }\nfunction wr(b, k, v) { b[k] = v; return v; }\nfunction cat(b, k) { b[k] = \"c\" + b[k]; return b[k]; }\nfunction has(b, k) { return b._exists(k); }\nfunction rem(b, k) { return hash::remove(b, k); }\nfunction cnt(b) { return b._count; }\nfunction all(b) { var n = 0; for ( var k, var v : b ) { n = n + 1; } return n; }\nfunction mem(b) { return b.i; }\nfunction memset(b) { b.i = 31; return b.i; }\nfunction churn() { for ( var i = 0; i < 40; ++i ) { var t = { i, \"junk\" + i }; } return 0; }\nfunction raw(b, n) { return b.raw[n]; }\nfunction rawset(b, n, v) { b.raw[n] = v; return b.raw[n]; }\n";
static void containers(Ctx& c) { int depth = c.thorough() ? 4 : 3, hint = c.choose(2); Host hh(CS, 1, true, 0, 64, hint ? 0 : -1); S path; if (!hh.c) { c.choose(1); c.split(); c.fail("cont:compile", sf("does not run %d", hh.b.err), CS); return; } WRContext* x = hh.c; WRState* w = hh.w; int hintSize = 0; WRValue box; WRValue ext; ext.init(60); char arr[5] = { 10, 11, 12, 13, 14 }; wr_makeContainer(&box, hintSize); std::map<S, S> m; bool held = false; bool hasExt = false, hasRaw = false; WRValue v[3]; if (c.choose(2)) { v[0] = box; wr_callFunction(x, "take", v, 1); held = true; path = "held "; }
	auto str = [&](WRValue* t, const char* k) { wr_makeString(x, t, k); }; auto expect = [&](const char* what, WRValue* r, const S& want) { S got = r ? wr::render(*r) : S("(null)"); if (got != want) c.fail(S("cont:") + what, path + ": " + what + " gives " + got + " instead of " + want + sf(" (error %d)", wr_getLastError(w)), CS); };
	static const char* on[] = { "addInt", "addInt2", "addFloat", "addValue", "setExt", "addArray", "rd", "wr", "wrNew", "wrStr", "cat", "has", "rem", "cnt", "mem", "memset", "take", "drop", "churn", "raw", "rawset", "hint0", "many" };
	for (int d = 0; d < depth; ++d) { int op = c.choose(23); if (d == 1) c.split(); path += (d ? " " : "") + S(on[op]); c.id("cont:" + path); c.transition(); for (auto& t : v) t.init(); v[0] = box; auto call = [&](const char* f, int n) { return wr_callFunction(x, f, v, n); };
		switch (op) { case 0: wr_addIntToContainer(&box, "i", d + 3); m["i"] = sf("%d", d + 3); break; case 1: wr_addIntToContainer(&box, "j", -d); m["j"] = sf("%d", -d); break; case 2: wr_addFloatToContainer(&box, d & 1 ? "i" : "fl", d + 0.25f); m[d & 1 ? "i" : "fl"] = wr::fbits(d + 0.25f); break; case 3: wr_addValueToContainer(&box, "ext", &ext); hasExt = true; break; case 4: ext.init(200 + d); break; case 5: wr_addArrayToContainer(&box, "raw", arr, 5); hasRaw = true; break;
		case 6: { if (!m.count("i")) throw Skip(); str(v + 1, "i"); expect("rd", call("rd", 2), m["i"]); if (hasExt) { str(v + 1, "ext"); v[0] = box; expect("rd ext", call("rd", 2), sf("%d", ext.asInt())); } break; } case 7: if (!m.count("i")) throw Skip(); str(v + 1, "i"); v[2].init(81 + d); m["i"] = sf("%d", 81 + d); expect("wr", call("wr", 3), m["i"]); break; case 8: str(v + 1, d & 1 ? "n1" : "n2"); v[2].init(0.5f); m[d & 1 ? "n1" : "n2"] = "f0.5"; expect("wrNew", call("wr", 3), "f0.5"); break; case 9: str(v + 1, "st"); str(v + 2, "text"); m["st"] = "\"text\""; expect("wrStr", call("wr", 3), m["st"]); break;
		case 10: { if (!m.count("st")) throw Skip(); str(v + 1, "st"); m["st"] = "\"c" + m["st"].substr(1); expect("cat", call("cat", 2), m["st"]); break; } case 11: for (const char* k : { "i", "st", "zz", "fl" }) { v[0] = box; str(v + 1, k); expect("has", call("has", 2), m.count(k) ? "1" : "0"); } break; case 12: { const char* k = d & 1 ? "j" : "i"; str(v + 1, k); call("rem", 2); m.erase(k); break; } case 13: expect("cnt", call("cnt", 1), sf("%d", (int)m.size() + hasExt + hasRaw)); v[0] = box; expect("all", call("all", 1), sf("%d", (int)m.size() + hasExt + hasRaw)); break;
		case 14: if (!m.count("i")) throw Skip(); expect("mem", call("mem", 1), m["i"]); break; case 15: if (!m.count("i")) throw Skip(); m["i"] = "31"; expect("memset", call("memset", 1), "31"); break; case 16: expect("take", call("take", 1), sf("%d", (int)m.size() + hasExt + hasRaw)); held = true; break; case 17: for (const char* k : { "st", "n1", "n2" }) if (m.count(k)) { m.erase(k); v[0] = box; str(v + 1, k); call("rem", 2); } v[0] = box; call("drop", 1); held = false; break; case 18: if (!held && m.count("st")) throw Skip(); call("churn", 0); break;
		case 19: if (!hasRaw) throw Skip(); for (int i = 0; i < 7; ++i) { v[0] = box; v[1].init(i); expect("raw", call("raw", 2), sf("%d", i < 5 ? (unsigned char)arr[i] : 0)); } break; case 20: if (!hasRaw) throw Skip(); for (int i = 0; i < 7; ++i) { v[0] = box; v[1].init(i); v[2].init(i * 40 + d); expect("rawset", call("rawset", 3), sf("%d", i < 5 ? (i * 40 + d) & 255 : 0)); if (i < 5 && (unsigned char)arr[i] != ((i * 40 + d) & 255)) c.fail("cont:rawset", path + ": the host's array was not written", CS); } break; case 21: wr_setAllocatedMemoryGCHint(w, 0); break; case 22: for (int i = 0; i < 40; ++i) { S k = sf("many%d", i); wr_addIntToContainer(&box, k.c_str(), i); m[k] = sf("%d", i); } break; }
		if (held || !m.count("st") || op != 18) {} for (auto& e : m) { if (!held && e.first == "st" && op != 9 && op != 10) continue; WRValue* r = wr_getValueFromContainer(box, e.first.c_str()); S got = r ? wr::render(*r) : "(null)"; if (got != e.second) c.fail(sf("cont:get:%s", on[op]), path + ": " + e.first + " is " + got + " instead of " + e.second, CS); } for (const char* k : { "i", "j", "st", "fl", "n1", "n2", "zz" }) if (!m.count(k) && wr_getValueFromContainer(box, k)) c.fail(S("cont:absent:") + on[op], path + ": " + k + " is found", CS); if (hasExt) { WRValue* r = wr_getValueFromContainer(box, "ext"); if (!r || r->asInt() != ext.asInt()) c.fail("cont:ext", path + ": shared value", CS); } { int n = -1; if (!box.isHashTable(&n) || n != (int)m.size() + hasExt + hasRaw) c.fail(S("cont:members:") + on[op], path + sf(": %d members instead of %d", n, (int)m.size() + hasExt + hasRaw), CS); }
		for (const char* k : { "st", "n1", "n2" }) if (m.count(k) && !held) { m.erase(k); v[0] = box; str(v + 1, k); call("rem", 2); } S st; for (auto& e : m) st += e.first + e.second; c.state(hashs(st + sf("%d%d%d", held, hasExt, hasRaw))); if (c.failed) break; }
	if (WRValue* g = wr_getGlobalRef(x, "box")) g->init(); bool first = depth & 1; if (first) { wr_destroyContainer(&box); } long live = hh.live; hh.close(); if (!first) wr_destroyContainer(&box); if (wr::g_live != live) c.fail("cont:leak", path + sf(": %ld blocks", wr::g_live - live), CS); c.trace(); c.outcome(path); }
// a suspended context: what the host may still do, and that nothing disturbs the suspended frames
static void suspendedCtx(Ctx& c) { static const S src = "var g = \"g\" + 1; struct P(x) { var px = \"p\" + x; };\nfunction f(a) { return a; }\nfunction in(p) { var l = { p, \"l\" + p }; var r = yield(l, p); out(l, r, p, g); return l; }\nvar a = in(\"x\" + 1); var b = in(2); out(a, b, g); yield(a); out(\"end\");\n"; int hint = c.choose(2), n = c.thorough() ? 4 : 3; int op[4]; S path; for (int d = 0; d < n; ++d) { op[d] = c.choose(8); if (d == 1) c.split(); path += sf(" %d", op[d]); } c.id("susp:" + path); c.note(src); S ref, got; for (int m = 0; m < 2; ++m) { long live = wr::g_live; { Host h(src, 1, true, 0, 64, hint ? 0 : -1); int step = 0; while (h.c && wr_getYieldInfo(h.c) && step < 10) { WRValue v[2]; v[0].init(1); v[1].init(2); if (m && step < n) { c.transition(); switch (op[step]) { case 0: break; case 1: { WRValue t; t.init(); if (wr_instanceStruct(&t, h.c, "P", v, 1)) c.fail("susp:inst", path + ": struct instance while suspended", src); break; } case 2: if (wr_callFunction(h.c, "str::strlen", v, 1)) c.fail("susp:lib", path + ": library call while suspended", src); break; case 3: { WRValue* r = wr_getGlobalRef(h.c, "g"); if (!r || wr::render(*r) != "\"g1\"") c.fail("susp:global", path, src); break; } case 4: { WRValue t; wr_makeString(h.c, &t, "junk"); break; } case 5: { WRContext* y = wr_run(h.w, h.b.p, h.b.n); WRValue* a; int k; if (!y || !wr_getYieldInfo(y, &a, &k) || k != 2) c.fail("susp:second", path, src); wr::g_out += ""; if (step & 1) wr_destroyContext(y); break; } case 6: wr_runCommand(h.w, "var q = { 1, \"s\" + 2 };"); break; case 7: if (wr_callFunction(h.c, "str::left", v, 2) || !wr_getLastError(h.w)) c.fail("susp:liberr", path + sf(": error %d", wr_getLastError(h.w)), src); break; } } WRValue* a; int k; WRValue* rv; if (!wr_getYieldInfo(h.c, &a, &k, &rv)) { c.fail("susp:lost", path + ": no longer suspended", src); break; } for (int i = 0; i < k; ++i) wr::g_out += wr::render(a[i]) + ","; wr_makeInt(rv, 50 + step); if (step & 1) wr_callFunction(h.c, "f", v, 1); else wr_continue(h.c); ++step; } if (h.w && wr_getLastError(h.w)) wr::g_out += sf("!E%d", wr_getLastError(h.w)); (m ? got : ref) = wr::g_out; h.close(); } if (wr::g_live != live) c.fail("susp:leak", path + sf(": %ld blocks", wr::g_live - live), src); }
	if (ref != got || ref.find("\"end\"") == S::npos) c.fail("susp:diff", path + ": " + got + " instead of " + ref, src); c.trace(); c.state(hashs(path)); c.outcome(path + got); }
// ------------------------------------------------------------------------------------------------ globals: which names are found, with which flags
static void globals(Ctx& c) { int n = 1 + c.choose(12), flags = c.choose(8), len = 1 + c.choose(70); c.split(); if (len > 20 && len < 55) throw Skip(); bool inc = flags & 1; int fl = (inc ? 1 : 0) | (flags & 2 ? 2 : 0) | (flags & 4 ? 4 : 0); S src, nm[12]; for (int i = 0; i < n; ++i) { nm[i] = S(1, 'a' + i) + S(len - 1, 'x'); src += "var " + nm[i] + sf(" = %d;\n", i * 3 + 1); } src += "function f(p) { var loc = p; return loc; }\nfunction last() { return " + nm[n - 1] + "; }\n"; S id = sf("glob:%d:%d:%d", n, fl, len); c.id(id); c.note(src.substr(0, 800)); long live = wr::g_live; { Host h(src, fl); if (!h.c) { if (len > 55) { c.trace(); return; } c.fail(id, sf("compile %d", h.b.err), src); return; } c.transition(); for (int i = 0; i < n; ++i) for (int pre = 0; pre < 2; ++pre) { WRValue* r = wr_getGlobalRef(h.c, ((pre ? "::" : "") + nm[i]).c_str()); if (!inc) { if (r) c.fail(id, "found without symbols", src); } else if (!r) c.fail("lost:" + id, nm[i] + " not found", src); else { if (r->asInt() != i * 3 + 1) c.fail(id, nm[i] + sf(" is %d", r->asInt()), src); } } for (const char* k : { "loc", "p", "last", "::", "zz", ":a" }) if (wr_getGlobalRef(h.c, k)) c.fail("found:" + id, S(k) + " found", src); if (inc) { WRValue* r = wr_getGlobalRef(h.c, nm[n - 1].c_str()); if (r) { r->init(4711); WRValue* q2 = wr_callFunction(h.c, "last"); if (!q2 || q2->asInt() != 4711) c.fail("write:" + id, "write through the reference is not seen", src); } } h.close(); } if (wr::g_live != live) c.fail("glob:leak", sf("%ld blocks", wr::g_live - live), src); c.trace(); c.state(hashs(src)); c.outcome(id); }
MC_MAIN({ "conv", conv, false }, { "calls", calls, false }, { "callbacks", callbacks, false }, { "constants", constants, false }, { "hist", hist, false }, { "containers", containers, false }, { "globals", globals, false }, { "suspendedCtx", suspendedCtx, false })
