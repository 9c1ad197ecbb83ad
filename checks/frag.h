// Program fragments covering the statement and expression forms of the language, shared by several explorations.
#pragma once
#include "wr.h"
using namespace mc;
static wr::Bytes *g_ok, *g_imp;
static void cbBC(WRContext* c, const WRValue* a, const int n, WRValue& r, void*) { wr_makeString(c, &r, (char*)g_imp->p, g_imp->n); }
static void cbMany(WRContext* c, const WRValue* a, const int n, WRValue& r, void*) { int s = 0; for (int i = 0; i < n; ++i) s = s * 3 + a[i].asInt(); wr_makeInt(&r, s); }
static const char* PRE = "struct S { var m; var n = 3; };\nstruct T(p) { var q = p + 1; var r = \"r\" + q; };\nstruct E { var x1 = id(1); var x2 = two(1, two(2, 3)); };\nvar g = 0; var h = 0; var ga = 1; var gb = 4;\n"
	"function id(x) { return x; }\nfunction two(x, y) { return x + \"/\" + y; }\nfunction none() { return 7; }\nfunction five(p, q, r, s, t) { return p + q * r - s + t; }\nfunction loc(n) { var a = n; var b = a + 1; var c = b + 1; var d = c + 1; var e = d + 1; return a + b + c + d + e; }\nfunction fib(n) { if ( n < 2 ) { return n; } return fib(n - 1) + fib(n - 2); }\nfunction rec(n) { if ( n > 0 ) { return rec(n - 1) + 1; } return 0; }\n"
	"function reca(n, q) { var t; t = { n, q }; if ( n > 0 ) { return reca(n - 1, t[0]) + t[1]; } return q; }\nfunction cat(n) { var s = \"\"; while ( n > 0 ) { s = s + n; n = n - 1; } return s; }\nfunction pick(x) { switch ( x ) { case 0: { return \"zero\"; } case 1: { return \"one\"; } default: { return x; } } }\nfunction sideeff() { g = g + 1; return g; }\n";
static const char* ops[] = {
	"a = 1; ", "a = 1.5; ", "a = 100000; ", "a = 300; ", "a = \"str\"; ", "a = ga; ", "a = ga + gb; ", "a = ga + (gb - (ga * (gb + (ga - 3)))); ", "a = b + (b - (b * (b + (b - ga)))); ", "a = (1 + id(2)) * (3 + (id(4) - (5 + (6 * (7 - id(8)))))); ", "a = id(id(id(id(id(3))))); ", "a = two(two(1, 2), two(3, two(4, 5))); ", "a = five(1, 2, 3, 4, 5); ", "a = five(none(), five(1, 2, none(), 4, 5), 3, none(), five()); ",
	"five(); ", "five(1, 2, 3, 4, 5, 6, 7, 8, 9); ", "a = loc(3); ", "a = loc(loc(loc(1))); ", "a = fib(5); ", "a = rec(6); ", "a = rec(id(rec(2)) + rec(3)); ", "a = reca(3, 4); ", "a = cat(3) + cat(2); ", "a = many(1, 2, 3, 4, 5, 6, 7, 8); ", "many(1, 2, many(3, 4, 5), many()); ", "a = many(id(1), many(2, id(3)), rec(2)); ", "a = math::abs(-3) + math::fmod(7, math::pow(2, 2)); ", "a = math::ceil(1.5); str::strlen(\"abc\"); ", "a = str::sprintf(\"%d %d %s\", 1, id(2), cat(2)); ", "a = str::concat(cat(2), str::left(cat(5), 2)); ",
	"a = { 1, 2, 3, { 4, 5, { 6, cat(1) } } }; out(a); ", "a = { \"k\": { 1: 2, 3: { 4: cat(2) } }, 7: id(8) }; ", "a = { 1, 2, 3 }; a[1] = id(a[2]) + a[0]; out(a); ", "a = { 1, 2 }; a[0] += 5; a[1]++; --a[0]; out(a[0] + a[1]); ", "a = { { 1, 2 }, { 3, 4 } }; a[1][0] = a[0][1] + a[1][1]; out(a[1][0]); ", "h = { 1: 2, 3: 4 }; for ( var $k, var $e : h ) { out($k + $e + id(3)); } ", "h = { 1, 2, 3 }; for ( var $e : h ) { b = b + $e; } ", "a = new S(); a.m = id(4); a.n = a.m + a.n; out(a.n); ", "a = new T(id(3)); out(a.r); ", "a = new S(){ m = id(1), n = two(2, 3) }; out(a.n); ", "a = new S(){ 5, id(6) }; out(a.n); ", "a = new E(); out(a.x2); ", "a = new S[]{ { 1, id(2) }, { id(3), 4 } }; out(a[1].m); ",
	"if ( ga < gb && id(1) ) { a = 2; } ", "if ( id(ga) == 1 || none() ) { a = two(1, 2); } ", "while ( b < 3 ) { b = b + id(1); } ", "for ( var $i = 0; $i < 3; ++$i ) { a = pick($i); } ", "a = b++ + ++b; ", "ga++; --gb; a = ga-- - gb++; ga = 1; gb = 4; ", "a = !b; a = -gb; a = ~gb; ", "a = (int)1.5 + (float)gb; ", "a = yield(1, id(2), 3); ", "yield(); ", "out(yield(yield(1) + 1)); ", "sys::importByteCode(bc()); a = imp(2, 3); ", "sys::importByteCode(bc()); imp(rec(1), 2); a = new IS(); out(a.q); ", "sys::importByteCode(bc()); a = irec(5) + rec(1); ",
	"a = std::deserialize(std::serialize({ 1, cat(2) })); out(a); ", "a = {}; array::clear(a); list::push(a, id(1)); list::push_back(a, 2); b = list::pop(a); ", "hash::clear(a); hash::add(a, id(1), id(2)); b = hash::exists(a, 2); ", "out(ga + gb, gb - ga, gb * gb, gb / 2, gb % 3, gb << 1, gb >> 1, gb & 1, gb | 1, gb ^ 1); ", "a = 1; b = 2.5; out(a == b, a != b, a < b, a > b, a <= b, a >= b, ga == gb, ga < gb, 5 < ga, a < 5, a == \"s\"); ", "a = \"x\" + 1 + 2.5 + \"y\" + cat(1); ", "a = sideeff() + sideeff() * sideeff(); ", "msg::write(3, id(4)); a = msg::read(3) + msg::peek(3); ", "a = ga._count; h = { 1, 2 }; a = h._count + h._count; ", "a = { 3, 4 }; b = a[1] + a[0] * a[1]; h = a; out(h[1] - h[0]); ", "a = b; a += 3; a -= 1; a *= 2; ga += 5; ga -= 5; b |= 3; b &= 2; b ^= 1; b <<= 2; b >>= 1; a %= 3; ", "a = \"lit\"; a = a[1]; ", "h = { \"x\": 1 }; h.x = h.x + id(2); out(h.x); h[\"y\"] = id(3); out(h[\"y\"]); " };
enum { NOPS = sizeof(ops) / sizeof(ops[0]) };
static std::string inst(std::string t, int n) { size_t p; while ((p = t.find('$')) != std::string::npos) t.replace(p, 1, sf("v%d", n)); return t; }
