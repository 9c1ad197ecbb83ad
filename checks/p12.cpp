// P12: the same script means the same in every configuration: build flags (compact, really compact, time slices, unaligned reads,
// amalgamated source) and compile flags. The observable outcome, including the bytecode, goes into a digest per scenario that the
// driver compares between builds; compile flags are compared here.
#include "frag.h"
static void prep() { if (g_imp) return; g_imp = new wr::Bytes; wr::compile("var iq = 5; function imp(x, y) { var t = x; var u = y; return \"i\" + t + u; } function irec(n) { if ( n > 0 ) { return irec(n - 1) + 1; } return 0; } struct IS { var q = imp(1, 2); };", *g_imp); }
static std::string exec(const wr::Bytes& b) {
	long live0 = wr::g_live; std::string o; WRState* w = wr_newState(120); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); wr_registerFunction(w, "bc", cbBC); wr_registerFunction(w, "many", cbMany); wr::g_out.clear();
	WRContext* c = wr_run(w, b.p, b.n); WRValue* r; int guard = 0; while (c && !wr_getLastError(w) && wr_getYieldInfo(c, 0, 0, &r) && ++guard < 100) { if (r) wr_makeInt(r, 11); wr_continue(c); }
	o = wr::g_out; if (wr_getLastError(w)) o += sf("!E%d", wr_getLastError(w)); if (guard >= 100) o += "!ENDLESS"; wr_destroyState(w); if (wr::g_live != live0) o += "!LEAK"; return o;
}
static void program(Ctx& c, const std::string& src, const std::string& id, int nf = 6) {
	prep(); c.id(id); c.note(src); static const int fl[] = { WR_INCLUDE_GLOBALS, WR_EMBED_DEBUG_CODE, 0, WR_EMBED_DEBUG_CODE | WR_EMBED_SOURCE_CODE, WR_INCLUDE_GLOBALS | WR_EMBED_DEBUG_CODE | WR_EMBED_SOURCE_CODE, WR_NON_STRICT_VAR | WR_INCLUDE_GLOBALS };
	std::string base; for (int f = 0; f < nf; ++f) { wr::Bytes b; if (wr::compile(src, b, fl[f])) { if (f && b.err == WR_ERR_compiler_panic && src.size() > 40000 && (fl[f] & WR_EMBED_SOURCE_CODE)) { c.transition(); continue; } c.fail("compile:" + id, sf("flags %d: does not compile: %d", fl[f], b.err), src); return; }
		std::string o = exec(b); c.transition(); if (!f) { base = o; wr::Bytes again; wr::compile(src, again, fl[f]); if (again.n != b.n || memcmp(again.p, b.p, b.n)) c.fail("repeat:" + id, "compiling twice gives different bytecode", src); } if (o != base) { c.fail("flags:" + id, sf("compile flags %d: <", fl[f]) + o.substr(0, 300) + "> flags 1: <" + base.substr(0, 300) + ">", src); return; } }
	if (base.find('!') != std::string::npos) { c.fail("error:" + id, base, src); return; } c.outcome(base); c.trace(); c.state(hashs(base));
}
static const char* more[] = {
	"a = 0; do { ++a; if ( a == 2 ) { continue; } out(a); if ( a > 3 ) { break; } } while ( a < 9 ); ", "for ( var $i = 0; $i < 4; ++$i ) { for ( var $j = 0; $j < 4; ++$j ) { if ( $j == 2 ) { continue; } if ( $i == 2 ) { break; } out($i, $j); } } ", "switch ( \"two\" ) { case \"one\": out(1); break; case \"two\": out(2); default: out(3); } ", "switch ( b ) { case 0: case 1: out(1); case 7: out(7); break; default: out(9); } ", "a = 500; switch ( a ) { case 500: out(1); break; case 1000: out(2); break; case 70000: out(3); break; } ",
	"a = { 5, 6, 7 }; for ( var $x : a ) { if ( $x == 6 ) { continue; } out($x); } ", "for ( var $k = 3; $k; --$k ) { out($k); } ", "a = 0x7F & 0xB; out(a, 'c'); ", "a = \"tab\\tquote\\\"\"; out(a); ", "a = gb & 6 | ga ^ 3; b = gb << 2 >> 1; out(a, b, ~gb, !gb, -gb); ", "a = 7; a %= 4; a <<= 3; a |= 1; a ^= 5; a &= 0xFD; a >>= 1; out(a); ", "out(1 < 2 == 1, 3 > 2 != 0, 1 + 2 * 3 - 4 / 2, (1 + 2) * 3, 7 % 4 * 2); ", "out(gb / 0, gb % 0, gb / 2.0, 1.0 / 3); ", "out(1000000 * 3000, 2147483647 + 1, -2147483647 - 2); ",
	"out(\"a\" == \"a\", \"a\" == \"b\", \"a\" != \"b\", \"1\" == 1); ", "out(str::format(\"%5d|%-5d|%05d|%x|%c|%s\", 42, 42, 42, 255, 65, \"s\")); ", "out(str::mid(\"abcdef\", 2, 3), str::toupper(\"abc\"), str::trim(\"  x \")); ", "a = \"abcdef\"; out(a[0], a[5], a._count, a._hash == \"abcdef\"._hash); ", "a = { 1, 2, 3 }; b = a; b[0] = 9; out(a, b, a._count); a = 0; b = 0; ", "a = { \"x\":1, 2:\"y\" }; out(a._count, a._exists(\"x\"), a._exists(9)); a._remove(\"x\"); out(a._count); ", "a = new T(5); b = a; b.q = 8; out(a.q, a.r); a = 0; b = 0; ", "out(sys::isFunction(\"id\"), sys::isFunction(\"nope\")); ", "h = { 1, { 2, { 3 } } }; out(h[1][1][0]); h[1][1][0] = { \"deep\":4 }; out(h[1][1][0].deep); " };
enum { NMORE = sizeof(more) / sizeof(more[0]), NALL = NOPS + NMORE };
static std::string frag(int i, int n) { return inst(i < NOPS ? ops[i] : more[i - NOPS], n); }
static std::string wrap(int fn, const std::string& body) { std::string s = PRE; return fn ? s + "function body(z) { var a = 0; var b = z; " + body + "out(a); out(b); return a; }\nbody(); body(2);\n" : s + "var a = 0; var b = 0; " + body + "out(a); out(b);\n"; }
static bool isStructOut(int) { return false; }
static void fragments(Ctx& c) { int fn = c.choose(2), o = c.choose(NALL); c.split(); int p = c.choose(NALL + 1) - 1; std::string s = frag(o, 1); if (p >= 0) { if (s.find("importByteCode") != std::string::npos && frag(p, 2).find("importByteCode") != std::string::npos) throw Skip(); if (!c.thorough() && (o + p + fn) % 5) throw Skip(); s += frag(p, 2); } program(c, wrap(fn, s), sf("frag:%d:%d:%d", fn, o, p)); (void)isStructOut; }
// compiled code is portable: the same bytes whatever the build of the compiler (left out for the amalgamated source, which may be regenerated later)
static void bytecode(Ctx& c) { if (getenv("MC_VARIANT") && strstr(getenv("MC_VARIANT"), "amal")) throw Skip(); int fn = c.choose(2), o = c.choose(NALL); c.split(); int f = c.choose(4); std::string src = wrap(fn, frag(o, 1)); c.id(sf("bytes:%d:%d:%d", fn, o, f)); c.note(src); wr::Bytes b; static const int fl[] = { 1, 0, 2, 7 }; wr::compile(src, b, fl[f]); c.transition(); c.trace(); c.outcome(sf("%d %016llx", b.err, (unsigned long long)hashs(std::string((char*)b.p, b.n)))); }
// size of the source (comments only), of its names and of its functions: nothing of it may show in what the program does
static void bulky(Ctx& c) { static const int sizes[] = { 0, 1, 200, 255, 256, 257, 32700, 32767, 32768, 32769, 65400, 65500, 65535, 65536, 65537, 65600, 70000, 131072, 131100, 200000 }; static const int nf[] = { 0, 1, 3, 40, 120 }, nl[] = { 1, 8, 30 }; int z = c.pick(sizes), n = c.pick(nf), l = c.pick(nl), at = c.choose(2); c.split(); if (z > 40000 && n > 3) throw Skip();
	std::string pad = z ? "//" + std::string(z, 'x') + "\n" : "", s; for (int i = 0; i < n; ++i) { std::string nm = sf("f%d", i) + std::string(l, 'n'), v = sf("v%d", i) + std::string(l, 'l'); s += "function " + nm + "(" + v + ") { var t" + v + " = " + v + " + " + sf("%d", i) + "; return t" + v + "; }\n"; } if (n == 3) s += "struct ST { var q = 4; var r = 5; };\n"; std::string call = "var g" + std::string(l, 'g') + " = 3; "; if (n) { call += sf("out(f0%s(5)); ", std::string(l, 'n').c_str()) + sf("out(f%d%s(7)); ", n - 1, std::string(l, 'n').c_str()); } call += "out(g" + std::string(l, 'g') + "); out(\"end\");\n"; if (n == 3) call += "var o = new ST(); out(o.q, o.r);\n"; program(c, at ? pad + s + call : s + call + pad, sf("bulky:%d:%d:%d:%d", z, n, l, at)); }
// ---- every operator on every kind and type of operand in every use ----
static const char* binop[] = { "+", "-", "*", "/", "%", "|", "&", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||" };
static const char* asop[] = { "=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=" };
static const char* vals[] = { "5", "-3", "0", "70000", "2.5", "-1.5", "0.0", "\"s\"", "\"5\"" };
enum { NV = 9 };
static bool isInt(int v) { return v < 4; } static bool isStr(int v) { return v >= 7; }
static const char* operand[] = { "L", "g#", "l#", "ar[#]", "gh[\"m#\"]", "st.m#", "f#()", "la[#]", "(g# + 0)" };
static std::string opnd(int k, int v, int n) { if (k == 0) return vals[v]; std::string t = operand[k]; size_t p; while ((p = t.find('#')) != std::string::npos) t.replace(p, 1, sf("%d", n)); return t; }
static std::string opwrap(int fn, int v0, int v1, const std::string& body) { std::string x = vals[v0], y = vals[v1];
	std::string s = "struct M { var m0 = " + x + "; var m1 = " + y + "; }; var g0 = " + x + "; var g1 = " + y + "; var ar[] = { " + x + ", " + y + " }; var gh = { \"m0\":" + x + ", \"m1\":" + y + " }; var st = new M(); function f0() { return " + x + "; } function f1() { return " + y + "; }\n", l = "var l0 = " + x + "; var l1 = " + y + "; var la[] = { " + x + ", " + y + " }; var r = 0; var n = 0; ";
	return fn ? s + "function body() { " + l + body + "} body();\n" : s + l + body + "\n"; }
static bool okOp(const char* op, int v0, int v1) { bool bits = strchr("%|&^<>", op[0]) && strcmp(op, "<") && strcmp(op, ">") && strcmp(op, "<=") && strcmp(op, ">=") && strcmp(op, "||") && strcmp(op, "&&"); if (bits && (!isInt(v0) || !isInt(v1))) return false; if ((isStr(v0) || isStr(v1)) && strchr("-*/", op[0])) return false; if ((isStr(v0) || isStr(v1)) && strchr("<>", op[0])) return false; if (op[0] == op[1] && (op[0] == '<' || op[0] == '>')) return v1 == 0 || v1 == 2; return true; }
static void operators(Ctx& c) { int fn = c.choose(2), op = c.choose(18), k0 = c.choose(9), k1 = c.choose(9), vv = c.choose(c.thorough() ? NV * NV : 9); c.split(); int v0 = vv / NV, v1 = vv % NV; if (!c.thorough()) { static const int sel[] = { 0 * NV + 1, 0 * NV + 4, 4 * NV + 0, 4 * NV + 5, 7 * NV + 0, 0 * NV + 7, 7 * NV + 8, 3 * NV + 0, 2 * NV + 2 }; v0 = sel[vv] / NV; v1 = sel[vv] % NV; }
	if (!okOp(binop[op], v0, v1)) throw Skip(); if ((k0 == 3 || k0 == 7) && isStr(v0) && false) throw Skip(); std::string e = opnd(k0, v0, 0) + " " + binop[op] + " " + opnd(k1, v1, 1);
	std::string b = "r = " + e + "; out(r); out(" + e + "); if ( " + e + " ) { out(1); } else { out(2); } while ( " + e + " ) { out(3); if ( ++n > 1 ) { break; } } out(!(" + e + ")); ar[0] = " + e + "; out(ar[0]); "; program(c, opwrap(fn, v0, v1, b), sf("op:%d:%d:%d:%d:%d", fn, op, k0, k1, vv), c.thorough() ? 6 : 1 + (vv == 0)); }
static void assigns(Ctx& c) { int fn = c.choose(2), op = c.choose(15), k0 = 1 + c.choose(5), k1 = c.choose(9), v0 = c.choose(NV), v1 = c.choose(NV); c.split(); if (k0 == 6) throw Skip(); if (op < 11 && !okOp(op ? asop[op] : "=", v0, v1)) throw Skip(); if (op >= 11 && (isStr(v0) || k1 || v1)) throw Skip(); if (!c.thorough() && (v0 + v1 + k0 + k1) % 2) throw Skip(); if (isStr(v0) && op > 1 && op < 11) throw Skip();
	std::string L = opnd(k0, v0, 0), R = opnd(k1, v1, 1), st = op < 11 ? L + " " + asop[op] + " " + R : op == 11 ? "++" + L : op == 12 ? L + "++" : op == 13 ? "--" + L : L + "--";
	std::string b = st + "; out(" + L + "); r = " + (op < 11 ? "(" + st + ")" : st) + "; out(r); out(" + L + "); out(l0, g0, ar, gh[\"m0\"], st.m0); "; program(c, opwrap(fn, v0, v1, b), sf("as:%d:%d:%d:%d:%d:%d", fn, op, k0, k1, v0, v1), c.thorough() ? 6 : 1 + (v0 + v1 == 0)); }
MC_MAIN({ "bulky", bulky, false }, { "fragments", fragments, false }, { "bytecode", bytecode, false }, { "operators", operators, false }, { "assigns", assigns, false })
