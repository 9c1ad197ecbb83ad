// P03: functions, parameters, scope, recursion and structs against a reference evaluator.
#include "refval.h"
using namespace mc;
static void check(Ctx& c, const std::string& src, const std::string& w, const std::string& key, int stack = 200) {
	c.note(src); wr::RunOpt o; o.stack = stack; std::string got = wr::runScript(src, o); c.outcome(got); c.transition();
	if (got != w) c.fail(key, "got <" + got.substr(0, 400) + "> want <" + w.substr(0, 400) + ">", src);
}
// ---- parameters ------------------------------------------------------------
enum { A_INT, A_FLT, A_GLOB, A_LOC, A_ELEM, A_HASH, A_STR, A_CALL, A_EXPR, A_STRUCT, A_NEG, NA };
static std::string argText(int k, int i) {
	switch (k) { case A_INT: return sf("%d", 40 + i); case A_FLT: return sf("%d.5", 50 + i); case A_GLOB: return sf("g%d", i); case A_LOC: return sf("l%d", i); case A_ELEM: return sf("ar[%d]", i); case A_HASH: return sf("hh.k%d", i);
		case A_STR: return sf("\"s%d\"", i); case A_CALL: return sf("id(%d)", 60 + i); case A_EXPR: return sf("(g%d + %d)", i, 3); case A_STRUCT: return sf("st.m%d", i); case A_NEG: return sf("-g%d", i); }
	return "0";
}
static std::string argVal(int k, int i) {
	switch (k) { case A_INT: return sf("%d", 40 + i); case A_FLT: return sf("f%d.5", 50 + i); case A_GLOB: return sf("%d", 100 + i); case A_LOC: return sf("%d", 200 + i); case A_ELEM: return sf("%d", 300 + i); case A_HASH: return sf("%d", 400 + i);
		case A_STR: return sf("\"s%d\"", i); case A_CALL: return sf("%d", 60 + i); case A_EXPR: return sf("%d", 103 + i); case A_STRUCT: return sf("%d", 500 + i); case A_NEG: return sf("%d", -100 - i); }
	return "0";
}
static const char* prelude = "struct S5 { var m0=500; var m1=501; var m2=502; var m3=503; var m4=504; }; var g0=100; var g1=101; var g2=102; var g3=103; var g4=104; var ar[]={300,301,302,303,304}; var hh={\"k0\":400,\"k1\":401,\"k2\":402,\"k3\":403,\"k4\":404}; var st = new S5(); var r = 0;\n"
	"function id(x) { return x; } function dirty(a,b,c,d) { var e=7001; var f=\"dirt\"; var g=7003; var h=7.25; var i=7005; return e; }\n";
static void params(Ctx& c) {
	int D = c.choose(6), A = c.choose(6), kind = c.choose(NA), other = c.choose(A > 0 ? NA + 1 : 1), slot = 0;
	if (other) { if (other - 1 == kind) throw Skip(); slot = A > 1 ? c.choose(A) : 0; if (A <= 1) throw Skip(); }
	int fn = c.choose(2), before = c.choose(2), nl = c.choose(3), mode = c.choose(4), dirt = c.choose(2);
	if (!c.thorough() && other && (before || nl == 1 || dirt)) throw Skip();
	c.split();
	auto kindOf = [&](int i) { return other && i == slot ? other - 1 : kind; };
	bool needFn = fn; for (int i = 0; i < A; ++i) if (kindOf(i) == A_LOC) needFn = true;
	std::string fd = "function f("; for (int i = 0; i < D; ++i) fd += sf("%sp%d", i ? ", " : "", i); fd += ") { ";
	for (int i = 0; i < nl; ++i) fd += sf("var z%d; ", i);
	fd += "out("; for (int i = 0; i < D; ++i) fd += sf("%sp%d", i ? ", " : "", i); fd += "); ";
	for (int i = 0; i < nl; ++i) fd += sf("out(z%d); z%d = %d; ", i, i, 90 + i);
	for (int i = 0; i < D; ++i) fd += sf("p%d = %d; ", i, 80 + i);
	for (int i = 0; i < D; ++i) fd += sf("out(p%d); ", i);
	for (int i = 0; i < nl; ++i) fd += sf("out(z%d); ", i);
	fd += D ? "return p0; }\n" : "return 80; }\n";
	std::string call = "f("; for (int i = 0; i < A; ++i) call += (i ? ", " : "") + argText(kindOf(i), i); call += ")";
	std::string use; switch (mode) { case 0: use = call + "; "; break; case 1: use = "r = " + call + "; out(r); "; break; case 2: use = "out(5 + " + call + " * 2); "; break; case 3: use = "if ( " + call + " == 80 ) { out(1); } "; break; }
	std::string once; for (int i = 0; i < D; ++i) once += (i ? " " : "") + (i < A ? argVal(kindOf(i), i) : std::string("0")); once += ";";
	for (int i = 0; i < nl; ++i) once += "0;"; for (int i = 0; i < D; ++i) once += sf("%d;", 80 + i); for (int i = 0; i < nl; ++i) once += sf("%d;", 90 + i);
	if (mode == 1) once += "80;"; if (mode == 2) once += "165;"; if (mode == 3) once += "1;";
	std::string after = "out(g0, g1, g2, g3, g4); out(ar); out(hh.k0, hh.k1, hh.k2, hh.k3, hh.k4); out(st.m0, st.m1, st.m4); ", aw = "100 101 102 103 104;[300,301,302,303,304];400 401 402 403 404;500 501 504;";
	std::string body; if (dirt) body += "dirty(9,8,7,6); ";
	if (needFn) { body = "var l0=200; var l1=201; var l2=202; var l3=203; var l4=204; " + body; after += "out(l0, l1, l2, l3, l4); "; aw += "200 201 202 203 204;"; }
	body += use + (dirt ? "dirty(1,2,3,4); " : "") + use + after;
	std::string src = prelude + (before ? fd : "") + (needFn ? "function t() { " + body + "}\nt();\n" : body + "\n") + (before ? "" : fd);
	check(c, src, once + once + aw, sf("params:D%d:A%d:k%d:o%d.%d:fn%d:b%d:l%d:m%d:d%d", D, A, kind, other, slot, fn, before, nl, mode, dirt));
}
// ---- fresh locals: every call starts with zeroed locals whatever ran before
static void locals(Ctx& c) {
	int P = c.choose(4), L = 1 + c.choose(5), what = c.choose(3), dirt = c.choose(4), depth = c.choose(3); c.split();
	std::string src = prelude; std::string w;
	src += "function deep(n) { var a = 31337; var b = \"xx\"; var q = 3.5; if ( n > 0 ) { deep(n - 1); } return a; }\n";
	std::string ps; for (int i = 0; i < P; ++i) ps += sf("%sp%d", i ? ", " : "", i);
	std::string d = dirt == 0 ? "" : dirt == 1 ? "dirty(5,6,7,8); " : dirt == 2 ? "deep(3); " : "id(\"abc\" + 12); ";
	if (what == 0) { // function
		src += "function f(" + ps + ") { "; for (int i = 0; i < L; ++i) src += sf("var v%d; ", i); for (int i = 0; i < L; ++i) { src += sf("out(v%d); ", i); w += "0;"; } src += "out(v0 + 5); "; w += "5;"; for (int i = 0; i < L; ++i) src += sf("v%d = 4444; ", i); src += "}\n";
		std::string call = "f("; for (int i = 0; i < P; ++i) call += sf("%s%d", i ? "," : "", 11 + i); call += "); ";
		std::string seq = d + call + d + call; w = w + w;
		if (depth) { src += "function wrap(n) { if ( n > 0 ) { wrap(n - 1); } else { " + seq + "} }\n"; seq = sf("wrap(%d); ", depth); }
		src += seq;
	} else { // struct members
		src += "struct Q(" + ps + ") { "; for (int i = 0; i < L; ++i) src += sf("var v%d; ", i); src += "};\n";
		std::string mk = what == 1 ? "x = new Q(" : "x = new Q("; for (int i = 0; i < P; ++i) mk += sf("%s%d", i ? "," : "", 11 + i); mk += "); ";
		std::string o = "out("; for (int i = 0; i < L; ++i) o += sf("%sx.v%d", i ? ", " : "", i); o += "); "; for (int i = 0; i < L; ++i) w += i ? " 0" : "0"; w += ";"; w = w + w;
		std::string seq = d + mk + o + sf("x.v0 = 5; x.v%d = \"q\"; ", L - 1) + d + mk + o;
		if (what == 2) { src += "function wrap(n) { var x; if ( n > 0 ) { wrap(n - 1); } else { " + seq + "} }\n"; src += sf("wrap(%d); ", depth); } else src += "var x; " + seq;
	}
	check(c, src, w, sf("locals:%d:%d:%d:%d:%d", P, L, what, dirt, depth));
}
// ---- scope: a model of one name with a global and an optional local/parameter meaning
static void scope(Ctx& c) {
	int bind = c.choose(4); // in function: plain global / parameter / var at start / var after first accesses
	int n = c.thorough() ? 4 : 3; std::vector<int> ops; for (int i = 0; i < n; ++i) ops.push_back(c.choose(10));
	int calls = 1 + c.choose(2); c.split();
	std::string body, w; int G = 10;
	for (int q = 0; q < calls; ++q) {
		int loc = bind == 1 ? 55 + q : 0; bool declared = bind == 1; std::string o;
		if (bind == 2) { o += "var g = 60; "; loc = 60; declared = true; }
		for (int i = 0; i < n; ++i) {
			if (bind == 3 && i == n / 2) { o += "var g = 61; "; loc = 61; declared = true; }
			int& t = declared ? loc : G;
			switch (ops[i]) {
				case 0: o += "out(g); "; w += sf("%d;", t); break;
				case 1: o += "out(::g); "; w += sf("%d;", G); break;
				case 2: o += sf("g = %d; ", 20 + i); t = 20 + i; break;
				case 3: o += sf("::g = %d; ", 30 + i); G = 30 + i; break;
				case 4: o += "g += 2; "; t += 2; break;
				case 5: o += "::g += 3; "; G += 3; break;
				case 6: o += "++g; "; if (bind == 1) throw Skip(); t += 1; break; // a parameter may alias its argument under ++: outside the domain
				case 7: o += "::g--; "; G -= 1; break;
				case 8: o += "h(g); "; G += t; break;
				case 9: o += "::g = g; "; G = t; break;
			}
		}
		o += "out(g, ::g); "; w += sf("%d %d;", declared ? loc : G, G);
		body = o; if (q + 1 < calls || true) { w += sf("%d;", G); }
	}
	std::string src = "var g = 10; function h(x) { g += x; }\n";
	src += std::string("function f(") + (bind == 1 ? "g" : "") + ") { " + body + "}\n";
	for (int q = 0; q < calls; ++q) src += sf("f(%d); out(g); ", 55 + q);
	check(c, src, w, sf("scope:%d:%d", bind, calls) + [&] { std::string s; for (int o : ops) s += sf(".%d", o); return s; }());
}
// ---- recursion -----------------------------------------------------------
typedef std::function<int(int, int)> Rec;
struct RT { const char* text; std::function<int(const Rec&, int, int)> fn; int maxN; };
static std::vector<RT> rts() {
	return {
		{ "n + f(n - 1, k)", [](const Rec& f, int n, int k) { return n + f(n - 1, k); }, 12 },
		{ "f(n - 1, k) + n", [](const Rec& f, int n, int k) { return f(n - 1, k) + n; }, 12 },
		{ "f(n - 1, k) * 2 - f(n - 2, k + 1)", [](const Rec& f, int n, int k) { return f(n - 1, k) * 2 - f(n - 2, k + 1); }, 9 },
		{ "f(n - 1, f(n - 2, k))", [](const Rec& f, int n, int k) { return f(n - 1, f(n - 2, k)); }, 8 },
		{ "(n - k) * (f(n - 1, k + 1) + f(n - 3, n)) + k", [](const Rec& f, int n, int k) { return (n - k) * (f(n - 1, k + 1) + f(n - 3, n)) + k; }, 9 },
		{ "f(n - 1, k) > 5", [](const Rec& f, int n, int k) { return f(n - 1, k) > 5 ? 1 : 0; }, 8 },
		{ "aa[1] + f(n - 1, aa[2]) - aa[0]", [](const Rec& f, int n, int k) { return 22 + f(n - 1, 33) - 11; }, 9 },
		{ "id(f(n - 1, id(k + n)))", [](const Rec& f, int n, int k) { return f(n - 1, k + n); }, 9 },
		{ "g2(n - 1, k)", [](const Rec& f, int n, int k) { return n - 1 <= 0 ? k : f(n - 2, k + 1) + 3; }, 9 }, // mutual
		{ "f(n - 1) - f(n - 2, 3, 4)", [](const Rec& f, int n, int k) { return f(n - 1, 0) - f(n - 2, 3); }, 9 },
	};
}
static void recursion(Ctx& c) {
	std::vector<RT> R = rts(); int t = c.choose((int)R.size()), wrap = c.choose(9), n = c.choose(R[t].maxN + 1), k = c.choose(3), fn = c.choose(2); c.split();
	const RT& T = R[t]; std::string e = T.text, body; Rec f; int calls = 0;
	// the place the recursive expression is evaluated at
	switch (wrap) {
		case 0: body = "return " + e + "; "; f = [&](int n, int k) { if (n <= 0) return k; return T.fn(f, n, k); }; break;
		case 1: body = "var t = n * 3; var u = " + e + "; return u + t - n; "; f = [&](int n, int k) { if (n <= 0) return k; int u = T.fn(f, n, k); return u + n * 2; }; break;
		case 2: body = "var t = 0; for ( var i = 0; i < 2; ++i ) { t += " + e + "; } return t - i; "; f = [&](int n, int k) { if (n <= 0) return k; int t = 0; for (int i = 0; i < 2; ++i) t += T.fn(f, n, k); return t - 2; }; break;
		case 3: body = "var i = 0; var t = 0; while ( i < 2 ) { ++i; if ( i == 2 ) { continue; } t = t + " + e + "; } return t; "; f = [&](int n, int k) { if (n <= 0) return k; return T.fn(f, n, k); }; break;
		case 4: body = "switch ( n & 1 ) { case 0: return " + e + "; default: var q = " + e + "; return q + 1; } "; f = [&](int n, int k) { if (n <= 0) return k; return n & 1 ? T.fn(f, n, k) + 1 : T.fn(f, n, k); }; break;
		case 5: body = "var loc[] = { n, 2 }; loc[1] = " + e + "; return loc[1] + loc[0]; "; f = [&](int n, int k) { if (n <= 0) return k; return T.fn(f, n, k) + n; }; break;
		case 6: body = "var h = { \"a\": n }; h.b = " + e + "; return h.b - h.a; "; f = [&](int n, int k) { if (n <= 0) return k; return T.fn(f, n, k) - n; }; break;
		case 7: body = "cnt = cnt + 1; var z = " + e + "; return z; "; f = [&](int n, int k) { if (n <= 0) return k; ++calls; return T.fn(f, n, k); }; break;
		case 8: body = "var t = 0; for ( var v : two ) { t += v; t += " + e + "; } return t; "; f = [&](int n, int k) { if (n <= 0) return k; int t = 0; for (int v = 1; v <= 2; ++v) { t += v; t += T.fn(f, n, k); } return t; }; break;
	}
	if ((wrap == 2 || wrap == 8) && (t == 2 || t == 3 || t == 4 || t == 9 || n > 6)) throw Skip();
	std::string src = "var aa[] = { 11, 22, 33 }; var two[] = { 1, 2 }; var cnt = 0; function id(x) { return x; } function g2(n, k) { if ( n <= 0 ) { return k; } return f(n - 1, k + 1) + 3; }\n";
	src += "function f(n, k) { if ( n <= 0 ) { return k; } " + body + "}\n";
	src += fn ? sf("function m() { var before = 17; var r = f(%d, %d); out(r, before, cnt); } m();", n, k) : sf("var r = f(%d, %d); out(r, 17, cnt);", n, k);
	int v = f(n, k);
	std::string key = sf("rec:%d:%d:%d:%d", t, wrap, n, k);
	if (wrap == 8) { // the recorded defect, and only it: all activations of the loop share one cursor
		int pos = 0; Rec s; s = [&](int n, int k) { if (n <= 0) return k; int t = 0; for (pos = 0; pos < 2;) { t += ++pos; t += T.fn(s, n, k); } return t; };
		int sv = s(n, k); c.note(src); wr::RunOpt o; o.stack = 800; std::string got = wr::runScript(src, o);
		if (sv != v && got == sf("%d 17 %d;", sv, calls)) { c.outcome(got); c.fail("recursive-foreach-shared-cursor", "got <" + got + "> want " + sf("%d", v), src); return; }
	}
	check(c, src, sf("%d 17 %d;", v, calls), key, 800);
}
// ---- structs ----------------------------------------------------------------
static void structs(Ctx& c) {
	int M = 1 + c.choose(4); // members
	int dm = c.choose(M >= 4 ? 27 : M == 3 ? 27 : M == 2 ? 9 : 3); // default per member (base 3): none, constant, from the argument
	int passed = c.choose(3); int ik = c.choose(2 + M + M); // none / {} / positional 1..M / named member i (alone, then with the last)
	int place = c.choose(6); int kindv = c.choose(2); c.split();
	std::string sd = "struct T(p, q) { "; std::vector<std::string> val(M);
	int x = dm; for (int i = 0; i < M; ++i) { int d = x % 3; x /= 3; if (d == 0) { sd += sf("var m%d; ", i); val[i] = "0"; } else if (d == 1) { sd += sf("var m%d = %d; ", i, 10 + i); val[i] = sf("%d", 10 + i); } else { sd += sf("var m%d = p + q; ", i); val[i] = sf("%d", passed == 0 ? 0 : passed == 1 ? 5 : 12); } }
	sd += "};\n";
	std::string mk = "new T"; mk += passed == 0 ? "()" : passed == 1 ? "(5)" : "(5, 7)";
	std::vector<std::string> v1 = val;
	auto lit = [&](int i) { return kindv ? sf("\"w%d\"", i) : sf("%d", 70 + i); };
	std::string ini;
	if (ik == 1) ini = " { }"; else if (ik >= 2 && ik < 2 + M) { ini = " { "; for (int i = 0; i <= ik - 2; ++i) { ini += lit(i) + ", "; v1[i] = lit(i); } ini += "}"; }
	else if (ik >= 2 + M) { int i = ik - 2 - M; ini = sf(" { m%d = ", M - 1) + lit(9); if (i != M - 1) { ini += sf(", m%d = ", i) + lit(i); v1[i] = lit(i); } v1[M - 1] = lit(9); ini += " }"; }
	std::string lv, lv2, decl; bool fn = false;
	switch (place) { case 0: decl = "var x; var y; "; lv = "x"; lv2 = "y"; break; case 1: decl = "var x[3]; "; lv = "x[1]"; lv2 = "x[2]"; break; case 2: decl = "var x = { \"o\":0, \"p\":0 }; "; lv = "x.o"; lv2 = "x[\"p\"]"; break;
		case 3: decl = "var x; var y; "; lv = "x"; lv2 = "y"; fn = true; break; case 4: decl = "var x = new H(); "; lv = "x.a"; lv2 = "x.b"; break; case 5: decl = "var x[3]; "; lv = "x[0]"; lv2 = "x[2]"; fn = true; break; }
	auto show = [&](const std::string& l) { std::string s = "out("; for (int i = 0; i < M; ++i) s += sf("%s%s.m%d", i ? ", " : "", l.c_str(), i); return s + "); "; };
	auto want = [&](const std::vector<std::string>& v) { std::string s; for (int i = 0; i < M; ++i) s += (i ? " " : "") + v[i]; return s + ";"; };
	std::string b = decl, w;
	b += lv + " = " + mk + ini + "; "; b += show(lv); w += want(v1);
	b += lv2 + " = " + mk + "; " + show(lv2); w += want(val);
	b += lv2 + sf(".m%d = 999; ", M - 1) + lv2 + ".m0 = \"z\"; " + show(lv) + show(lv2); w += want(v1); { auto v = val; v[M - 1] = "999"; v[0] = "\"z\""; w += want(v); }
	b += "var alias = " + lv + "; alias.m0 = 31; " + show(lv) + "out(alias.m0); "; { auto v = v1; v[0] = "31"; w += want(v); w += "31;"; v1 = v; }
	b += "chg(" + lv + "); " + show(lv); { auto v = v1; v[0] = "32"; w += want(v); }
	std::string src = "struct H { var a; var b; };\n" + sd + "function chg(s) { s.m0 = 32; }\n" + (fn ? "function t() { " + b + "}\nt();\n" : b);
	check(c, src, w, sf("struct:%d:%d:%d:%d:%d:%d", M, dm, passed, ik, place, kindv));
}
// arrays of structs and structs holding structs
static void structArrays(Ctx& c) {
	int n = c.choose(5), M = 1 + c.choose(3), fill = c.choose(3), fn = c.choose(2); c.split();
	std::string src = "struct T { "; for (int i = 0; i < M; ++i) src += sf("var m%d = %d; ", i, 10 + i); src += "};\n";
	std::string b = "var x = new T[] { "; std::vector<std::vector<std::string>> v;
	for (int i = 0; i < n; ++i) { b += "{ "; std::vector<std::string> r; int k = fill == 0 ? M : fill == 1 ? 0 : (i % (M + 1)); for (int j = 0; j < M; ++j) { if (j < k) { b += sf("%d, ", 100 * i + j); r.push_back(sf("%d", 100 * i + j)); } else r.push_back(sf("%d", 10 + j)); } b += "}, "; v.push_back(r); }
	b += "}; "; std::string w;
	b += "out(x._count); "; w += sf("%d;", n);
	for (int i = 0; i < n; ++i) for (int j = 0; j < M; ++j) { b += sf("out(x[%d].m%d); ", i, j); w += v[i][j] + ";"; }
	if (n > 1) { b += sf("x[%d].m0 = 5; x[0].m%d = x[%d]; out(x[%d].m0); out(x[0].m%d.m0); ", n - 1, M - 1, n - 1, n - 1, M - 1); w += "5;5;"; for (int i = 1; i + 1 < n; ++i) { b += sf("out(x[%d].m0); ", i); w += v[i][0] + ";"; } }
	src += fn ? "function t() { " + b + "} t();" : b;
	check(c, src, w, sf("starr:%d:%d:%d:%d", n, M, fill, fn));
}
// ---- many of everything: correct, or (beyond the documented field sizes) rejected by the compiler
static void sizes(Ctx& c) {
	int what = c.choose(6); std::vector<int> N;
	for (int i = 1; i <= 24; ++i) N.push_back(i); for (int i : { 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 150, 200, 240, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 270, 300 }) N.push_back(i);
	int n = c.pick(N), mode = c.choose(4); c.split();
	std::string src = "function dirty(a) { ", w; for (int i = 0; i < 40; ++i) src += sf("var z%d = %d; ", i, 9000 + i); src += "return a; }\n"; int limit = 254;
	auto list = [&](const char* f, int m) { std::string s; for (int i = 0; i < m; ++i) s += (i ? ", " : "") + sf(f, i, i); return s; };
	std::string args; for (int i = 0; i < n; ++i) args += sf("%s%d", i ? "," : "", 700 + i);
	switch (what) {
		case 0: { // locals: fresh ones read 0, assigned ones keep their value
			src += "function f(q) { "; for (int i = 0; i < n; ++i) src += mode & 1 ? sf("var v%d; ", i) : sf("var v%d = q + %d; ", i, i);
			for (int i = 0; i < n; ++i) { src += sf("out(v%d); ", i); w += mode & 1 ? "0;" : sf("%d;", 5 + i); }
			src += "}\n"; src += mode & 2 ? "function r(k) { if ( k > 0 ) { r(k - 1); } else { dirty(3); f(5); } }\nr(2); " : "dirty(3); f(5); "; limit = 253; break; }
		case 1: { // parameters, with all / some / no arguments, and locals behind them
			int pass = mode == 0 ? n : mode == 1 ? n / 2 : mode == 2 ? 0 : n - 1; args.clear(); for (int i = 0; i < pass; ++i) args += sf("%s%d", i ? "," : "", 700 + i);
			src += "function f("; for (int i = 0; i < n; ++i) src += sf("%sp%d", i ? "," : "", i); src += ") { var l1; var l2 = 8; "; for (int i = 0; i < n; ++i) { src += sf("out(p%d); ", i); w += i < pass ? sf("%d;", 700 + i) : "0;"; } src += "out(l1, l2); }\ndirty(1); f(" + args + "); "; w += "0 8;"; limit = 252; break; }
		case 2: { // more arguments than parameters
			int D = mode; src += "function f("; for (int i = 0; i < D; ++i) src += sf("%sp%d", i ? "," : "", i); src += ") { var l1; var l2 = 8; "; for (int i = 0; i < D; ++i) { src += sf("out(p%d); ", i); w += i < n ? sf("%d;", 700 + i) : "0;"; } src += "out(l1, l2); return 5; }\nout(f(" + args + ") + 1, 3); "; w += "0 8;6 3;"; limit = 255; break; }
		case 3: { // functions
			for (int i = 0; i < n; ++i) src += sf("function f%d(a) { return a + %d; }\n", i, i * 3); for (int i = 0; i < n; i += (mode & 1 ? 1 : 7)) { src += mode & 2 ? sf("var r%d = f%d(4); out(r%d); ", i % 5 + 1000 * i, i, i % 5 + 1000 * i) : sf("out(f%d(4)); ", i); w += sf("%d;", 4 + i * 3); } limit = mode & 2 ? 200 : 254; break; }
		case 4: { // globals
			for (int i = 0; i < n; ++i) src += mode & 1 ? sf("var g%d; ", i) : sf("var g%d = %d; ", i, i + 7); src += "\nfunction f() { "; for (int i = 0; i < n; ++i) { src += mode & 2 ? sf("::g%d += 1; out(g%d); ", i, i) : sf("out(::g%d); ", i); w += sf("%d;", (mode & 1 ? 0 : i + 7) + (mode & 2 ? 1 : 0)); } src += "}\nf(); "; limit = 255; break; }
		case 5: { // struct members
			src += "struct T(a) { "; for (int i = 0; i < n; ++i) src += mode & 1 ? sf("var m%d; ", i) : sf("var m%d = a + %d; ", i, i); src += "};\ndirty(1); var x = new T(3); "; if (mode & 2) src += sf("var y = new T(4) { m%d = 77 }; ", n - 1);
			for (int i = 0; i < n; ++i) { src += sf("out(x.m%d); ", i); w += sf("%d;", mode & 1 ? 0 : 3 + i); } if (mode & 2) { src += sf("out(y.m%d); ", n - 1); w += "77;"; } limit = 120; break; }
	}
	c.note(src); wr::RunOpt o; o.stack = 1200; std::string got = wr::runScript(src, o); c.outcome(got); c.transition();
	if (got != w && !(n > limit && got.compare(0, 7, "COMPILE") == 0)) c.fail(sf("sizes:%d:%d:%d", what, n, mode), "got <" + got.substr(0, 300) + "> want <" + w.substr(0, 300) + ">", src);
}
// ---- programs around and beyond 64 KB of code
static void far(Ctx& c) {
	int n = c.pick(std::vector<int>{ 40, 80, 82, 84, 86, 92, 110 }), st = c.choose(2); c.split();
	std::string src = "var g = 0;\n", w, b; for (int j = 0; j < 60; ++j) b += sf("g = g * %d + a; ", 1000 + j);
	for (int i = 0; i < n; ++i) src += st && i == n - 1 ? sf("struct f%d(a) { var m = a; %s }\n", i, "") : sf("function f%d(a) { %sreturn %d; }\n", i, b.c_str(), i);
	for (int i = 0; i < n - st; i += (i < n - 6 ? 13 : 1)) { src += sf("out(f%d(1)); ", i); w += sf("%d;", i); } if (st) { src += sf("var x = new f%d(6); out(x.m); ", n - 1); w += "6;"; }
	c.note(sf("%d functions of about 800 bytes", n)); wr::RunOpt o; o.stack = 200; std::string got = wr::runScript(src, o); c.outcome(got); c.transition();
	if (got != w && !(n > 78 && got.compare(0, 7, "COMPILE") == 0)) c.fail(sf("far:%d:%d", n, st), "got <" + got.substr(0, 300) + "> want <" + w.substr(0, 300) + ">", src);
}
MC_MAIN({ "far", far, false }, { "sizes", sizes, false }, { "params", params, false }, { "locals", locals, false }, { "scope", scope, false }, { "recursion", recursion, false }, { "structs", structs, false }, { "structArrays", structArrays, false })
