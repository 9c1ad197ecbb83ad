// P01: every operator, on every storage class, in every syntactic position, equals the C-like reference,
//      and evaluating it changes no operand that is not assigned.
#include "refval.h"
using namespace mc; using namespace ref;

static std::vector<V> vals(bool thorough) {
	std::vector<V> v = { I(0), I(1), I(-1), I(2), I(7), I(-8), I(31), I(127), I(-129), I(300), I(65536), I(2147483647), I(INT32_MIN),
		F(0.0f), F(1.0f), F(-1.0f), F(2.5f), F(-3.75f), F(0.125f), F(300.0f) };
	if (thorough) { int32_t more[] = { 3, 15, 16, 30, 128, 255, 256, -127, -128, 32767, 32768, -32768, -32769, 40000, 65535, -65536, 16777217, -2147483647 }; for (int32_t m : more) v.push_back(I(m)); v.push_back(F(0.1f)); v.push_back(F(16777216.0f)); v.push_back(F(7.0f)); }
	return v;
}

// ---- storage classes ------------------------------------------------------
enum Cls { LITERAL, GLOBAL, LOCAL, ARG, GARR_C, GARR_V, HASH_DOT, HASH_STR, HASH_INT, STRUCT, CALL, LARR, PAREN, LSTRUCT, BIGIDX, LHASH, HGLOBAL, NCLS };
static const char* clsName[] = { "lit", "glob", "local", "arg", "garr[c]", "garr[v]", "h.k", "h[s]", "h[i]", "struct", "call", "larr", "paren", "lstruct", "garr[300]", "lhash", "::glob" };
static bool needsFn(int c) { return c == LOCAL || c == ARG || c == LARR || c == LSTRUCT || c == LHASH || c == HGLOBAL; }
// slot 0 = left, 1 = right; src = how the value is fetched at this place (a literal, an argument, a host call)
static std::string expr(int c, int slot, const std::string& src) {
	const char* ab = slot ? "b" : "a"; int n = slot + 1;
	switch (c) {
		case LITERAL: return src;
		case GLOBAL: return sf("g%s", ab);
		case LOCAL: return sf("l%s", ab);
		case ARG: return sf("p%s", ab);
		case GARR_C: return sf("ar[%d]", n);
		case GARR_V: return sf("ar[ix%d]", n);
		case HASH_DOT: return sf("hh.k%s", ab);
		case HASH_STR: return sf("hh[\"k%s\"]", ab);
		case HASH_INT: return sf("hh[%d]", 70 + n);
		case STRUCT: return sf("st.m%s", ab);
		case CALL: return "id(" + src + ")";
		case LARR: return sf("la_[%d]", n);
		case PAREN: return sf("(g%s)", ab);
		case LSTRUCT: return sf("ls.m%s", ab);
		case BIGIDX: return sf("big[%d]", 300 + n);
		case LHASH: return sf("lh.k%s", ab);
		case HGLOBAL: return sf("::g%s", ab);
	}
	return "";
}
static bool lvalue(int c) { return c != LITERAL && c != CALL && c != PAREN; }
static std::string init(int c, int slot, const std::string& src) {
	if (c == LITERAL || c == CALL || c == ARG) return "";
	if (c == LOCAL) return "var " + expr(c, slot, src) + " = " + src + "; ";
	if (c == PAREN || c == HGLOBAL) return sf("g%s = ", slot ? "b" : "a") + src + "; ";
	return expr(c, slot, src) + " = " + src + "; ";
}
static const char* prelude =
	"struct S { var ma; var mb; var mr; }; var ga = 0; var gb = 0; var gr = 0; var ar[] = {0,0,0,0}; var ix1 = 1; var ix2 = 2;\n"
	"var hh = {\"ka\":0,\"kb\":0,71:0,72:0}; var st = new S(); var big[310]; function id(x) { return x; }\n"
	"function two(x,y) { return y; } var kk = 0;\n";
static const char* fnPrelude = "var la_[] = {0,0,0,0}; var ls = new S(); var lh = {\"ka\":0,\"kb\":0}; var lr = 0; ";

// ---- result positions -----------------------------------------------------
enum Tmpl { T_ARG, T_GASSIGN, T_LASSIGN, T_IF, T_WHILE, T_FOR, T_NOTIF, T_ARR, T_HASH, T_STRUCT, T_RET, T_NESTL, T_NESTR, T_DOWHILE, T_IFELSE_LONG, T_ANDOR, T_ARG2, T_CAST, T_INDEX, NTMPL };
static const char* tmplName[] = { "arg", "g=", "l=", "if", "while", "for", "if!", "arr=", "hash=", "struct=", "return", "(..)+3", "3+(..)", "dowhile", "iflong", "&&1", "arg2", "cast", "[]" };
static std::string longBody() { std::string s; for (int i = 0; i < 24; ++i) s += sf("kl = kl * %d + 1; ", i + 3); return s; } // > 127 bytes of code: wide branches
static std::string position(int t, const std::string& e) {
	switch (t) {
		case T_ARG: return "out(" + e + "); ";
		case T_GASSIGN: return "gr = " + e + "; out(gr); ";
		case T_LASSIGN: return "lr = " + e + "; out(lr); ";
		case T_IF: return "if ( " + e + " ) { out(1); } else { out(0); } ";
		case T_WHILE: return "gr = 0; while ( " + e + " ) { out(1); gr = 1; break; } if ( gr == 0 ) { out(0); } ";
		case T_FOR: return "gr = 0; for ( ; " + e + " ; ) { out(1); gr = 1; break; } if ( gr == 0 ) { out(0); } ";
		case T_NOTIF: return "if ( !(" + e + ") ) { out(0); } else { out(1); } ";
		case T_ARR: return "ar[3] = " + e + "; out(ar[3]); ";
		case T_HASH: return "hh.r = " + e + "; out(hh.r); ";
		case T_STRUCT: return "st.mr = " + e + "; out(st.mr); ";
		case T_RET: return "";
		case T_NESTL: return "out((" + e + ") + 3); ";
		case T_NESTR: return "out(3 - (" + e + ")); ";
		case T_DOWHILE: return "gr = 0; do { ++gr; if ( gr == 2 ) { out(1); break; } } while ( " + e + " ); if ( gr == 1 ) { out(0); } ";
		case T_IFELSE_LONG: return "if ( " + e + " ) { " + longBody() + "out(1); } else { " + longBody() + "out(0); } ";
		case T_ANDOR: return "out((" + e + ") && 1); ";
		case T_ARG2: return "out(two(5, " + e + ")); ";
		case T_CAST: return "out((int)(" + e + ")); ";
		case T_INDEX: return "out(hh[71 + (" + e + ") * 0]); ";
	}
	return "";
}
static bool wantFor(int t, const V& r, std::string& w, int h71) {
	switch (t) {
		case T_IF: case T_WHILE: case T_FOR: case T_NOTIF: case T_DOWHILE: case T_IFELSE_LONG: case T_ANDOR: w = truth(r) ? "1;" : "0;"; return true;
		case T_NESTL: { V q = apply(ADD, r, I(3)); if (!resultOk(q)) return false; w = show(q) + ";"; return true; }
		case T_NESTR: { V q = apply(SUB, I(3), r); if (!resultOk(q)) return false; w = show(q) + ";"; return true; }
		case T_CAST: if (r.fl && fabs(r.f) > 2e9) return false; w = (r.fl ? sf("%d", (int)r.f) : show(r)) + ";"; return true;
		case T_INDEX: if (r.fl) return false; w = sf("%d;", h71); return true;
	}
	w = show(r) + ";"; return true;
}

static void report(Ctx& c, const std::string& src, const std::string& got, const std::vector<std::string>& want, const std::vector<std::string>& what, const std::string& key) {
	std::string all; for (auto& w : want) all += w;
	c.outcome(got);
	if (got == all) return;
	size_t pos = 0; size_t i = 0;
	for (; i < want.size(); ++i) { if (got.compare(pos, want[i].size(), want[i])) break; pos += want[i].size(); }
	std::string g = got.substr(std::min(pos, got.size()), 60);
	std::string wh = i < what.size() ? what[i] : "end";
	c.fail(key, sf("at <%s>: got <%s> want <%s>", wh.c_str(), g.c_str(), i < want.size() ? want[i].c_str() : ""), src);
}
static void runPieces(Ctx& c, const std::string& src, const std::vector<std::string>& want, const std::vector<std::string>& what, const std::string& key) {
	c.note(src);
	wr::RunOpt o; o.stack = 200;
	report(c, src, wr::runScript(src, o), want, what, key);
}
// value pairs fed by the host: va(k), vb(k)
static std::vector<std::pair<V, V>>* g_pairs;
static void give(const V& v, WRValue& ret) { if (v.fl) wr_makeFloat(&ret, v.f); else wr_makeInt(&ret, v.i); }
static void cbVA(WRContext*, const WRValue* a, const int n, WRValue& ret, void*) { give((*g_pairs)[a[0].asInt()].first, ret); }
static void cbVB(WRContext*, const WRValue* a, const int n, WRValue& ret, void*) { give((*g_pairs)[a[0].asInt()].second, ret); }
static void setupPairs(WRState* w) { wr_registerFunction(w, "va", cbVA); wr_registerFunction(w, "vb", cbVB); }
static std::string runPairs(Ctx& c, const std::string& src) { c.note(src); wr::RunOpt o; o.stack = 200; o.setup = setupPairs; return wr::runScript(src, o); }

// the driver loop around one piece of code, at global level or inside a function
static std::string driver(bool fn, bool ret, const std::string& ini, const std::string& code, size_t n) {
	std::string s = prelude; s += "var kl = 0; ";
	if (ret) return s + "function t(pa, pb) { " + fnPrelude + ini + "return " + code + "; }\n" + sf("for ( kk = 0; kk < %d; ++kk ) { out(t(va(kk), vb(kk))); }\n", (int)n);
	if (fn) return s + "function t(pa, pb) { " + fnPrelude + ini + code + "}\n" + sf("for ( kk = 0; kk < %d; ++kk ) { t(va(kk), vb(kk)); }\n", (int)n);
	return s + sf("for ( kk = 0; kk < %d; ++kk ) { ", (int)n) + ini + code + "}\n";
}

// op x class x class x position x at-global/in-function, over every value pair
static void opGrid(Ctx& c, bool comp) {
	int op = c.choose(comp ? SHR + 1 : NOPS), cl = c.choose(NCLS), cr = c.choose(NCLS), t = comp ? T_ARG : c.choose(NTMPL);
	int form = comp ? c.choose(3) : 0; // a statement, an assigned value, a condition
	if (comp && !lvalue(cl)) throw Skip();
	bool fn = needsFn(cl) || needsFn(cr) || t == T_LASSIGN || t == T_RET;
	if (!fn) fn = c.flag();
	if (t == T_INDEX && (cl == HASH_INT || cr == HASH_INT)) throw Skip();
	if (!c.thorough() && !comp) { // quick: every position for the plain classes, the result-shaping positions for the rest
		auto core = [](int x) { return x == LITERAL || x == GLOBAL || x == LOCAL || x == CALL || x == GARR_C; };
		bool few = t == T_ARG || t == T_GASSIGN || t == T_IF || t == T_LASSIGN || t == T_RET;
		if (!few && !(core(cl) && core(cr))) throw Skip();
		if (cl == LITERAL && cr == LITERAL && !(t == T_ARG || t == T_GASSIGN || t == T_IF || t == T_WHILE)) throw Skip();
	}
	std::vector<V> vs = vals(c.thorough());
	// a literal operand is part of the program text: one program per literal value
	std::vector<std::pair<V, V>> todo, pairs;
	for (auto& a : vs) for (auto& b : vs) if (inDomain(op, a, b) && resultOk(apply(op, a, b))) todo.push_back({ a, b });
	std::string litA, litB;
	if (cl == LITERAL || cr == LITERAL) {
		std::vector<V> ls = vs; if (!c.thorough()) ls = { I(0), I(1), I(-1), I(7), I(127), I(300), I(65536), I(INT32_MIN), F(0.0f), F(2.5f), F(-3.75f) };
		V lv = ls[c.choose((int)ls.size())], rv = lv;
		if (cl == LITERAL && cr == LITERAL) rv = ls[c.choose((int)ls.size())];
		for (auto& p : todo) { if (cl == LITERAL && show(p.first) != show(lv)) continue; if (cr == LITERAL && show(p.second) != show(cl == LITERAL ? rv : lv)) continue; pairs.push_back(p); }
		litA = lit(lv); litB = lit(cl == LITERAL ? rv : lv);
	} else pairs = todo;
	c.split();
	std::vector<std::string> want, what; std::vector<std::pair<V, V>> run;
	std::string srcA = cl == LITERAL ? litA : fn ? "pa" : "va(kk)", srcB = cr == LITERAL ? litB : fn ? "pb" : "vb(kk)";
	std::string la = expr(cl, 0, srcA), rb = expr(cr, 1, srcB);
	bool showA = lvalue(cl) || cl == PAREN, showB = lvalue(cr) || cr == PAREN;
	for (auto& p : pairs) {
		V r = apply(op, p.first, p.second); std::string w;
		if (comp) { w = show(r) + ";"; if (form == 1) w = show(r) + ";" + w; if (form == 2) w = (truth(r) ? "1;" : "0;") + w; if (showB) w += show(p.second) + ";"; }
		else { if (!wantFor(t, r, w, 0)) continue; if (t != T_RET) { if (showA) w += show(p.first) + ";"; if (showB) w += show(p.second) + ";"; } }
		run.push_back(p); want.push_back(w); what.push_back(la + " " + opText[op] + (comp ? "= " : " ") + rb + "  with a=" + lit(p.first) + " b=" + lit(p.second)); c.transition();
	}
	if (run.empty()) throw Skip();
	g_pairs = &run;
	std::string code;
	if (comp) { std::string e = la + " " + opText[op] + "= " + rb; code = (form == 0 ? e + "; " : form == 1 ? "gr = (" + e + "); out(gr); " : "if ( (" + e + ") ) { out(1); } else { out(0); } ") + "out(" + la + "); "; } else { std::string e = la + " " + opText[op] + " " + rb; code = t == T_RET ? e : position(t, e); if (t != T_RET && showA) code += "out(" + la + "); "; }
	if (t != T_RET && showB) code += "out(" + rb + "); ";
	std::string src = driver(fn, t == T_RET, init(cl, 0, srcA) + init(cr, 1, srcB), code, run.size());
	report(c, src, runPairs(c, src), want, what, comp ? sf("cmp%d:%s=:%s:%s", form, opText[op], clsName[cl], clsName[cr]) : sf("bin:%s:%s:%s:%s", opText[op], clsName[cl], clsName[cr], tmplName[t]));
}
static void binary(Ctx& c) { opGrid(c, false); }
static void compound(Ctx& c) { opGrid(c, true); }

// unary, casts, pre/post increment x class x position
enum Un { U_NOT, U_BNOT, U_NEG, U_INT, U_FLOAT, U_PREINC, U_POSTINC, U_PREDEC, U_POSTDEC, U_PLAIN, NUN };
static const char* unName[] = { "!", "~", "-", "(int)", "(float)", "++x", "x++", "--x", "x--", "plain" };
static void unary(Ctx& c) {
	int u = c.choose(NUN), cl = c.choose(NCLS), t = c.choose(NTMPL);
	bool inc = u >= U_PREINC && u <= U_POSTDEC;
	if (inc && !lvalue(cl)) throw Skip();
	if (t == T_INDEX && cl == HASH_INT) throw Skip();
	bool fn = needsFn(cl) || t == T_LASSIGN || t == T_RET; if (!fn) fn = c.flag();
	if (inc && (t == T_ARG || t == T_WHILE || t == T_FOR || t == T_DOWHILE || t == T_ARG2)) throw Skip(); // out(x++) passes a live reference; loops re-evaluate
	std::vector<V> vs = vals(true); std::string litA;
	if (cl == LITERAL) { V one = vs[c.choose((int)vs.size())]; vs.assign(1, one); litA = lit(one); }
	c.split();
	std::string srcA = cl == LITERAL ? litA : fn ? "pa" : "va(kk)", x = expr(cl, 0, srcA), e;
	if (u != U_PLAIN && cl == LITERAL && x[0] == 45) throw Skip(); // prefix operators do not nest
	switch (u) {
		case U_NOT: e = "!" + x; break; case U_BNOT: e = "~" + x; break; case U_NEG: e = "-" + x; break;
		case U_INT: e = "(int)" + x; break; case U_FLOAT: e = "(float)" + x; break; case U_PREINC: e = "++" + x; break;
		case U_PREDEC: e = "--" + x; break; case U_POSTINC: e = x + "++"; break; case U_POSTDEC: e = x + "--"; break; case U_PLAIN: e = x; break;
	}
	std::vector<std::string> want, what; std::vector<std::pair<V, V>> run;
	bool showA = lvalue(cl) || cl == PAREN;
	for (auto& a : vs) {
		if (u == U_BNOT && a.fl) continue;
		if (u == U_INT && a.fl && fabs(a.f) > 2e9) continue;
		V r = a, after = a;
		switch (u) {
			case U_NOT: r = I(!truth(a)); break; case U_BNOT: r = I(~a.i); break;
			case U_NEG: r = a.fl ? F(-a.f) : I((int32_t)(0u - (uint32_t)a.i)); break;
			case U_INT: r = a.fl ? I((int)a.f) : a; break; case U_FLOAT: r = F(toF(a)); break;
			case U_PREINC: r = after = apply(ADD, a, I(1)); break; case U_PREDEC: r = after = apply(SUB, a, I(1)); break;
			case U_POSTINC: after = apply(ADD, a, I(1)); break; case U_POSTDEC: after = apply(SUB, a, I(1)); break;
		}
		if (!resultOk(r)) continue;
		std::string w; if (!wantFor(t, r, w, 0)) continue;
		if (t != T_RET) {
			if (showA) w += show(after) + ";";
			if (inc) { V s = (u == U_PREINC || u == U_POSTINC) ? apply(ADD, after, I(1)) : apply(SUB, after, I(1)); w += show(s) + ";"; } // also as a bare statement
		}
		run.push_back({ a, a }); want.push_back(w); what.push_back(e + " with a=" + lit(a)); c.transition();
	}
	if (run.empty()) throw Skip();
	g_pairs = &run;
	std::string code = t == T_RET ? e : position(t, e);
	if (t != T_RET && showA) code += "out(" + x + "); ";
	if (t != T_RET && inc) code += e + "; out(" + x + "); ";
	std::string src = driver(fn, t == T_RET, init(cl, 0, srcA), code, run.size());
	report(c, src, runPairs(c, src), want, what, sf("un:%s:%s:%s", unName[u], clsName[cl], tmplName[t]));
}

// ---- operator trees: precedence, associativity, operand shuffling ---------
struct Node { int op, l, r; V v; std::string s; };
static const int treeOpsQ[] = { ADD, SUB, MUL, DIV, MOD, SHL, LT, GE, EQ, BAND, BXOR, BOR, LAND, LOR };
// value of an unparenthesised chain v0 o0 v1 o1 v2 ... by C precedence, left to right
static bool evalChain(std::vector<V> v, std::vector<int> o, V& out) {
	for (int p = 5; p <= 15; ++p) for (size_t i = 0; i < o.size();) {
		if (opPrec[o[i]] != p) { ++i; continue; }
		if (!inDomain(o[i], v[i], v[i + 1])) return false;
		v[i] = apply(o[i], v[i], v[i + 1]); if (!resultOk(v[i])) return false;
		v.erase(v.begin() + i + 1); o.erase(o.begin() + i);
	}
	out = v[0]; return true;
}
static const int leafVals[] = { 13, 3, 5, 2, 6 };
static std::string leaf(int kind, int i) {
	switch (kind) { case 0: return sf("%d", leafVals[i]); case 1: return sf("v%d", i); case 2: return sf("w%d", i); case 3: return sf("id(%d)", leafVals[i]); case 4: return sf("aa[%d]", i); case 5: return sf("hx.f%d", i); case 6: return sf("-n%d", i); }
	return "";
}
static V leafV(int kind, int i) { return kind == 0 || kind == 3 || kind == 6 || kind == 1 || kind == 4 || kind == 2 || kind == 5 ? I(leafVals[i]) : I(0); }
static const char* treePrelude = "var v0=13; var v1=3; var v2=5; var v3=2; var v4=6; var n0=-13; var n1=-3; var n2=-5; var n3=-2; var n4=-6; var aa[]={13,3,5,2,6}; var hx={\"f0\":13,\"f1\":3,\"f2\":5,\"f3\":2,\"f4\":6}; function id(x){return x;}\n";
static void chains(Ctx& c) {
	int nop = 1 + c.choose(c.thorough() ? 4 : 3);
	// last operator position enumerated inside one script
	std::vector<int> ops; int NO = sizeof treeOpsQ / sizeof *treeOpsQ;
	for (int i = 0; i + 1 < nop; ++i) ops.push_back(treeOpsQ[c.choose(NO)]);
	std::vector<int> kd;
	if (nop >= 4 || (nop == 3 && !c.thorough())) { // all leaves of one kind, or every mix of {local, call}
		int u = c.choose(8);
		if (u < 7) kd.assign(nop + 1, u); else for (int i = 0; i <= nop; ++i) kd.push_back(c.flag() ? 3 : 2);
	} else { int kinds = nop == 3 ? 4 : 7; for (int i = 0; i <= nop; ++i) kd.push_back(c.choose(kinds)); }
	int shape = nop >= 2 ? c.choose(nop == 2 ? 3 : nop == 3 ? 6 : 3) : 0; // parenthesisations
	c.split();
	std::string body; std::vector<std::string> want, what;
	for (int o = 0; o < NO; ++o) {
		std::vector<int> os = ops; os.push_back(treeOpsQ[o]);
		std::vector<V> vs; std::vector<std::string> ls;
		for (int i = 0; i <= nop; ++i) { vs.push_back(leafV(kd[i], i)); ls.push_back(leaf(kd[i], i)); }
		std::string e; V r; bool ok = true;
		auto sub = [&](int a, int b, V& out) { std::vector<V> v(vs.begin() + a, vs.begin() + b + 1); std::vector<int> oo(os.begin() + a, os.begin() + b); return evalChain(v, oo, out); };
		auto str = [&](int a, int b) { std::string s = ls[a]; for (int i = a; i < b; ++i) s += std::string(" ") + opText[os[i]] + " " + ls[i + 1]; return s; };
		auto group = [&](int a, int b) { V q; if (!sub(a, b, q)) { ok = false; return; } std::string g = "(" + str(a, b) + ")"; vs.erase(vs.begin() + a + 1, vs.begin() + b + 1); vs[a] = q; ls.erase(ls.begin() + a + 1, ls.begin() + b + 1); ls[a] = g; os.erase(os.begin() + a, os.begin() + b); };
		if (nop == 2 && shape == 1) group(0, 1);
		if (nop == 2 && shape == 2) group(1, 2);
		if (nop >= 3 && shape == 1) group(1, 2);
		if (nop >= 3 && shape == 2) { group(0, 1); if (ok) group(1, 2); }     // (a b)(c d)
		if (nop >= 3 && shape == 3) { group(2, 3); if (ok) group(1, 2); }     // a (b (c d))
		if (nop >= 3 && shape == 4) { group(0, 1); }
		if (nop >= 3 && shape == 5) { group(1, 3); }
		if (!ok) continue;
		if (!sub(0, (int)vs.size() - 1, r)) continue;
		e = str(0, (int)vs.size() - 1);
		body += "out(" + e + "); gr = " + e + "; out(gr); if ( " + e + " ) { out(1); } else { out(0); }\n";
		want.push_back(show(r) + ";" + show(r) + ";" + (truth(r) ? "1;" : "0;")); what.push_back(e); c.transition(3);
	}
	std::string src = treePrelude; bool fn = false; for (int k : kd) if (k == 2) fn = true;
	if (fn) src += "var gr=0; function t() { var w0=13; var w1=3; var w2=5; var w3=2; var w4=6; " + body + " }\nt();\n"; else src += "var gr=0; " + body;
	std::string key = "chain:"; for (int o : ops) key += std::string(opText[o]) + ":"; for (int k : kd) key += sf("%d", k); key += sf(":s%d", shape);
	runPieces(c, src, want, what, key);
}

// literals in every base around every power of two
static void literals(Ctx& c) {
	int base = c.choose(6); int k = c.choose(32); bool fn = c.flag(); c.split();
	std::string body; std::vector<std::string> want, what;
	for (int d = -2; d <= 2; ++d) for (int neg = 0; neg < 2; ++neg) {
		uint32_t u = (1u << k) + d; std::string s;
		if (base == 0) s = sf("%u", u); else if (base == 1) s = sf("0x%X", u); else if (base == 2) s = sf("0x%08x", u);
		else if (base == 3) { if (u == 0) continue; s = sf("0%o", u); }
		else if (base == 4) { for (int b = 31; b >= 0; --b) if (s.size() || (u >> b & 1) || b == 0) s += (u >> b & 1) ? '1' : '0'; s = "0b" + s; }
		else { if (u > 16000000) continue; s = sf("%u.%d", u, 5); float f = (float)atof(s.c_str()); body += sf("out(%s%s); ar[%d] = %s%s; out(ar[%d]); gg = %s%s; out(gg);\n", neg ? "-" : "", s.c_str(), d + 2, neg ? "-" : "", s.c_str(), d + 2, neg ? "-" : "", s.c_str()); std::string w = wr::fbits(neg ? -f : f) + ";"; want.push_back(w + w + w); what.push_back(s); c.transition(); continue; }
		int32_t v = neg ? (int32_t)(0u - u) : (int32_t)u;
		std::string t = (neg ? "-" : "") + s;
		body += "out(" + t + "); gg = " + t + "; out(gg); ar[3] = " + t + "; out(ar[3]); out(two(1, " + t + ")); if ( gg == " + t + " ) { out(1); } gg -= " + t + "; out(gg);\n";
		want.push_back(sf("%d;%d;%d;%d;1;0;", v, v, v, v)); what.push_back(t); c.transition();
	}
	std::string src = "var ar[8]; var gg = 0; function two(x,y) { return y; }\n";
	src += fn ? "function t() { var gg = 0; " + body + "} t();" : body;
	runPieces(c, src, want, what, sf("lit:%d:%d", base, k));
}

// every other way to write a number: characters (all of them, and their escapes), floats without a digit before or after the point, with suffix, words, enumerators
static void forms(Ctx& c) {
	struct L { std::string text; std::string want; }; static std::vector<L> all;
	if (all.empty()) { for (int i = 32; i < 256; ++i) if (i != '\'' && i != '\\' && i != 127) all.push_back({ sf("'%c'", i), sf("%d", i) }); for (int i = 0; i < 256; ++i) { all.push_back({ sf("'\\0%d'", i), sf("%d", i) }); all.push_back({ sf("'\\0%03d'", i), sf("%d", i) }); }
		static const char* esc[][2] = { { "'\\n'", "10" }, { "'\\r'", "13" }, { "'\\t'", "9" }, { "'\\\\'", "92" }, { "'\\''", "39" }, { "'\\\"'", "34" }, { "true", "1" }, { "false", "0" }, { "null", "0" }, { "E0", "0" }, { "E1", "1" }, { "E9", "9" }, { "E10", "10" }, { "E300", "300" }, { "E70000", "70000" }, { "EN", "71" }, { "0x0", "0" }, { "00", "0" }, { "0b0", "0" }, { "0xaBcDeF", "11259375" }, { "0000000017", "15" }, { "0x00000000ff", "255" }, { "2147483648", "-2147483648" }, { "4294967295", "-1" } }; for (auto& e : esc) all.push_back({ e[0], e[1] });
		static const char* num[] = { "0", "1", "7", "12", "255", "256", "65535", "65536", "100000", "3000000" }; static const char* frac[] = { "0", "5", "25", "05", "125", "999", "000001" };
		auto fl = [&](const std::string& t) { std::string d = t; while (d.size() && (d.back() == 'f' || d.back() == 'F')) d.pop_back(); all.push_back({ t, wr::fbits((float)atof(d.c_str())) }); all.push_back({ "-" + t, wr::fbits(-(float)atof(d.c_str())) }); };
		for (auto n : num) { fl(n + std::string("f")); fl(n + std::string("F")); fl(n + std::string(".")); fl(n + std::string(".f")); for (auto f : frac) { fl(n + std::string(".") + f); fl(n + std::string(".") + f + "f"); fl(n + std::string(".") + f + "F"); } } for (auto f : frac) { fl("." + std::string(f)); fl("." + std::string(f) + "f"); } }
	int n = c.choose((int)all.size()); bool fn = c.flag(); c.split(); const L& l = all[n]; const std::string t = l.text, w = l.want + ";"; std::vector<std::string> want, what;
	std::string body = "out(" + t + "); gg = " + t + "; out(gg); ar[3] = " + t + "; out(ar[3]); out(two(1, " + t + ")); if ( gg == " + t + " ) { out(1); } if ( " + t + " == ar[3] ) { out(2); } for ( var i = 0; i < 1; ++i ) { gg = (" + t + "); out(gg); } out(1*" + t + "); var nn = " + t + "; out(nn);\n"; bool ch = t.size() > 2 && t[0] == '\'' && l.want != "0" && t != "'\"'"; if (ch) body += "var cs = \"x" + t.substr(1, t.size() - 2) + "\"; out(cs[1]); if ( cs[1] == " + t + " ) { out(3); } switch( cs[1] ) { case " + t + ": out(4); break; default: out(5); }\n"; // the character literal is the byte a string holds
	want.push_back(w + w + w + w + "1;2;" + w + w + w + (ch ? w + "3;4;" : "")); what.push_back(t); c.transition(); std::string src = "enum { E0, E1, E9 = 9, E10, E300 = 300, E70000 = 70000, EN = 'G' } var ar[8]; var gg = 0; function two(x,y) { return y; }\n"; src += fn ? "function t() { var gg = 0; " + body + "} t();" : body; runPieces(c, src, want, what, sf("form:%d", n)); }
// string operators: concatenation with every scalar in both orders, equality, +=, self reference
static void strings(Ctx& c) {
	static const char* strs[] = { "", "a", "ab", "x y", "0", "12", "a\\n", "abcdefghijklmnopqrstuvwxyz0123456789" };
	static const char* raw[] = { "", "a", "ab", "x y", "0", "12", "a\n", "abcdefghijklmnopqrstuvwxyz0123456789" };
	std::vector<V> vs = { I(0), I(7), I(-12), I(2147483647), I(INT32_MIN), F(2.5f), F(-0.5f), F(3.0f) };
	int a = c.choose(8), fn = c.choose(2), cl = c.choose(NCLS), cr = c.choose(NCLS);
	c.split();
	auto q = [](const std::string& s) { return wr::quote(s.data(), s.size()); };
	// place a string literal / scalar literal in a storage class
	auto ini = [](int cls, int slot, const std::string& l) -> std::string { if (cls == LITERAL || cls == CALL) return ""; if (cls == ARG) return sf("p%s = ", slot ? "b" : "a") + l + "; "; if (cls == LOCAL) return sf("var l%s = ", slot ? "b" : "a") + l + "; "; if (cls == PAREN) return sf("g%s = ", slot ? "b" : "a") + l + "; "; return expr(cls, slot, "") + " = " + l + "; "; };
	auto ex = [](int cls, int slot, const std::string& l) -> std::string { if (cls == LITERAL) return l; if (cls == CALL) return "id(" + l + ")"; return expr(cls, slot, ""); };
	std::string body = prelude; std::vector<std::string> want, what; int k = 0;
	bool needfn = fn || needsFn(cl) || needsFn(cr);
	auto emit = [&](const std::string& code, const std::string& w, const std::string& wh) {
		if (needfn) body += sf("function t%d(pa, pb) { ", k) + fnPrelude + code + "}\n" + sf("t%d(0,0);\n", k); else body += code + "\n";
		++k; want.push_back(w); what.push_back(wh); c.transition();
	};
	std::string A = std::string("\"") + strs[a] + "\"", RA = raw[a];
	for (int b = 0; b < 8; ++b) {
		std::string B = std::string("\"") + strs[b] + "\"", RB = raw[b];
		std::string x = ex(cl, 0, A), y = ex(cr, 1, B), in = ini(cl, 0, A) + ini(cr, 1, B);
		std::string post, pw; if (lvalue(cl)) { post += "out(" + x + "); "; pw += q(RA) + ";"; } if (lvalue(cr)) { post += "out(" + y + "); "; pw += q(RB) + ";"; }
		emit(in + "out(" + x + " + " + y + "); out(" + x + " == " + y + "); out(" + x + " != " + y + "); if ( " + x + " == " + y + " ) { out(1); } else { out(0); } gr = " + x + " + " + y + "; out(gr); " + post,
			q(RA + RB) + ";" + sf("%d;%d;%d;", RA == RB, RA != RB, RA == RB) + q(RA + RB) + ";" + pw, A + " + " + B);
		if (lvalue(cl)) emit(in + x + " += " + y + "; out(" + x + "); " + (lvalue(cr) ? "out(" + y + "); " : ""), q(RA + RB) + ";" + (lvalue(cr) ? q(RB) + ";" : ""), A + " += " + B);
	}
	for (auto& v : vs) {
		std::string L = lit(v); std::string sv = v.fl ? sf("%g", v.f) : sf("%d", v.i);
		std::string x = ex(cl, 0, A), y = ex(cr, 1, L), in = ini(cl, 0, A) + ini(cr, 1, L);
		std::string post, pw; if (lvalue(cl)) { post += "out(" + x + "); "; pw += q(RA) + ";"; } if (lvalue(cr)) { post += "out(" + y + "); "; pw += show(v) + ";"; }
		emit(in + "out(" + x + " + " + y + "); gr = " + x + " + " + y + "; out(gr); " + post, q(RA + sv) + ";" + q(RA + sv) + ";" + pw, A + " + " + L);
		emit(in + "out(" + y + " + " + x + "); gr = " + y + " + " + x + "; out(gr); " + post, q(sv + RA) + ";" + q(sv + RA) + ";" + pw, L + " + " + A);
		if (lvalue(cl)) emit(in + x + " += " + y + "; out(" + x + "); " + (lvalue(cr) ? "out(" + y + "); " : ""), q(RA + sv) + ";" + (lvalue(cr) ? show(v) + ";" : ""), A + " += " + L);
	}
	runPieces(c, body, want, what, sf("str:%s:%s:%d", clsName[cl], clsName[cr], needfn));
}

MC_MAIN({ "binary", binary, false }, { "compound", compound, false }, { "unary", unary, false }, { "chains", chains, false }, { "literals", literals, false }, { "forms", forms, false }, { "strings", strings, false })
