// P02: every nesting of control-flow constructs executes exactly the statements a structured reference interpreter executes.
#include "refval.h"
using namespace mc;

// ---- a tiny structured AST with its own reference interpreter -------------
enum Sig { NORM, BRK, CONT, RET };
struct St; typedef std::shared_ptr<St> P;
struct Cond { int form; std::string v; int k; };   // text over one variable
struct St {
	int kind; std::string v; Cond c, c2; std::vector<P> a, b, d; int n = 0, pad = 0; std::vector<int> labels; std::vector<int> brk; int dflt = -1;
};
typedef std::vector<P> Blk;
struct Env { std::map<std::string, int> m; std::string out; int steps = 0; int rv = 0; };
static bool ev(const Cond& c, Env& e) {
	int x = e.m[c.v];
	switch (c.form) {
		case 0: return x == c.k; case 1: return x < c.k; case 2: return c.k <= x; case 3: return x != c.k; case 4: return x != 0; case 5: return !(x == c.k);
		case 6: return true; case 7: return false; case 8: return x > c.k && x != 99; case 9: return (x & 1) == 1;
	}
	return false;
}
static std::string txt(const Cond& c) {
	switch (c.form) {
		case 0: return sf("%s == %d", c.v.c_str(), c.k); case 1: return sf("%s < %d", c.v.c_str(), c.k); case 2: return sf("%d <= %s", c.k, c.v.c_str());
		case 3: return sf("%s != %d", c.v.c_str(), c.k); case 4: return c.v; case 5: return sf("!(%s == %d)", c.v.c_str(), c.k); case 6: return "1"; case 7: return "0";
		case 8: return sf("%s > %d && %s != 99", c.v.c_str(), c.k, c.v.c_str()); case 9: return sf("(%s & 1) == 1", c.v.c_str());
	}
	return "0";
}
enum K { K_OUT, K_BREAK, K_CONT, K_RET, K_IF, K_IFELSE, K_ELSEIF, K_IFBARE, K_WHILE, K_FOR, K_DO, K_FOREVER, K_EACH, K_EACHKV, K_SWITCH, K_SWITCHBIG, K_BLOCK, K_GOTO, K_WHILE1, K_FORVAR, K_PAD, K_NOP, K_IFELSEBARE, K_FORBARE, K_WHILEBARE, K_SWITCHB };
static const char* kName[] = { "out", "break", "continue", "return", "if", "ifelse", "elseif", "ifbare", "while", "for", "do", "for(;;)", "foreach", "foreachkv", "switch", "switchbig", "block", "goto", "while1", "forvar", "pad", "nop", "ifelsebare", "forbare", "whilebare", "switchb" };
static P mk(int k) { P p = std::make_shared<St>(); p->kind = k; return p; }
static Sig run(const Blk& b, Env& e);
static Sig run1(const P& s, Env& e) {
	if (++e.steps > 5000) throw Skip(); // the reference itself does not terminate: outside the domain
	switch (s->kind) {
		case K_OUT: e.out += sf("%d;", s->n); return NORM;
		case K_NOP: case K_PAD: return NORM;
		case K_BREAK: return BRK; case K_CONT: return CONT; case K_RET: e.rv = s->n; return RET;
		case K_IF: case K_IFBARE: return ev(s->c, e) ? run(s->a, e) : NORM;
		case K_IFELSE: case K_IFELSEBARE: return run(ev(s->c, e) ? s->a : s->b, e);
		case K_ELSEIF: return run(ev(s->c, e) ? s->b : ev(s->c2, e) ? s->a : s->d, e);
		case K_BLOCK: return run(s->a, e);
		case K_WHILE: case K_WHILE1: case K_FOREVER:
			e.m[s->v] = 0;
			for (;;) {
				if (s->kind == K_WHILE) { if (!(e.m[s->v] < 3)) break; ++e.m[s->v]; } else { if (++e.m[s->v] > 3) break; }
				Sig g = run(s->a, e); if (g == BRK) break; if (g == RET) return g;
			}
			return NORM;
		case K_DO: e.m[s->v] = 0; do { ++e.m[s->v]; Sig g = run(s->a, e); if (g == BRK) break; if (g == RET) return g; } while (e.m[s->v] < 3); return NORM;
		case K_FOR: case K_FORVAR: case K_FORBARE: for (e.m[s->v] = 0; e.m[s->v] < 3; ++e.m[s->v]) { Sig g = run(s->a, e); if (g == BRK) break; if (g == RET) return g; } return NORM;
		case K_EACH: case K_EACHKV: for (int i = 0; i < 3; ++i) { e.m[s->v] = i; if (s->kind == K_EACHKV) e.out += sf("%d;", i); Sig g = run(s->a, e); if (g == BRK) break; if (g == RET) return g; } return NORM;
		case K_WHILEBARE: while (e.m[s->v]++ < 3) { Sig g = run(s->a, e); if (g == BRK) break; if (g == RET) return g; } return NORM;
		case K_GOTO: e.m[s->v] = 0; do { ++e.m[s->v]; Sig g = run(s->a, e); if (g != NORM) return g; } while (e.m[s->v] < 3); return NORM;
		case K_SWITCHB: { // case 1: A (falls through) default: B
			if (e.m[s->v] == 1) { Sig g = run(s->a, e); if (g == BRK) return NORM; if (g != NORM) return g; }
			Sig g = run(s->b, e); return g == BRK ? NORM : g;
		}
		case K_SWITCH: case K_SWITCHBIG: {
			int sel = e.m[s->v]; int big = s->kind == K_SWITCHBIG ? 300 : 0;
			(void)big;
			// case 0: out 1000; break; case 1: BODY (fallthrough) case 2: out 1002; break; default: out 1003
			if (sel == 0) { e.out += "1000;"; return NORM; }
			if (sel == 1) { Sig g = run(s->a, e); if (g == BRK) return NORM; if (g != NORM) return g; }
			if (sel == 1 || sel == 2) { e.out += "1002;"; return NORM; }
			Sig g = run(s->b, e); if (g == BRK) return NORM; return g;
		}
	}
	return NORM;
}
static Sig run(const Blk& b, Env& e) { for (auto& s : b) { Sig g = run1(s, e); if (g != NORM) return g; } return NORM; }

struct Emit { std::string o; std::vector<std::string> vars; int labels = 0; int padN = 0; bool fn = false; };
static void em(const Blk& b, Emit& e);
static void em1(const P& s, Emit& e) {
	auto body = [&](const Blk& b) { e.o += "{ "; em(b, e); e.o += "} "; };
	const char* v = s->v.c_str();
	switch (s->kind) {
		case K_OUT: e.o += sf("out(%d); ", s->n); break;
		case K_NOP: e.o += "; "; break;
		case K_PAD: for (int i = 0; i < s->n; ++i) e.o += sf("pp = pp + %d; ", i & 7); for (int i = 0; i < s->pad; ++i) e.o += "++pp; "; break;
		case K_BREAK: e.o += "break; "; break;
		case K_CONT: e.o += "continue; "; break;
		case K_RET: e.o += sf("return %d; ", s->n); break;
		case K_IF: e.o += "if ( " + txt(s->c) + " ) "; body(s->a); break;
		case K_IFBARE: e.o += "if ( " + txt(s->c) + " ) "; em(s->a, e); break; // single statement, no braces
		case K_IFELSEBARE: e.o += "if ( " + txt(s->c) + " ) "; em(s->a, e); e.o += "else "; em(s->b, e); break;
		case K_FORBARE: e.o += sf("for ( %s = 0; %s < 3; ++%s ) ", v, v, v); em(s->a, e); break;
		case K_WHILEBARE: e.o += sf("while ( %s++ < 3 ) ", v); em(s->a, e); break;
		case K_SWITCHB: e.o += sf("switch ( %s ) { case 1: ", v); em(s->a, e); e.o += "default: "; em(s->b, e); e.o += "} "; break;
		case K_IFELSE: e.o += "if ( " + txt(s->c) + " ) "; body(s->a); e.o += "else "; body(s->b); break;
		case K_ELSEIF: e.o += "if ( " + txt(s->c) + " ) "; body(s->b); e.o += "else if ( " + txt(s->c2) + " ) "; body(s->a); e.o += "else "; body(s->d); break;
		case K_BLOCK: body(s->a); break;
		case K_WHILE: e.o += sf("%s = 0; while ( %s < 3 ) { ++%s; ", v, v, v); em(s->a, e); e.o += "} "; break;
		case K_WHILE1: e.o += sf("%s = 0; while ( true ) { if ( ++%s > 3 ) { break; } ", v, v); em(s->a, e); e.o += "} "; break;
		case K_FOREVER: e.o += sf("%s = 0; for ( ;; ) { if ( ++%s > 3 ) { break; } ", v, v); em(s->a, e); e.o += "} "; break;
		case K_DO: e.o += sf("%s = 0; do { ++%s; ", v, v); em(s->a, e); e.o += sf("} while ( %s < 3 ); ", v); break;
		case K_FOR: e.o += sf("for ( %s = 0; %s < 3; ++%s ) ", v, v, v); body(s->a); break;
		case K_FORVAR: e.o += sf("for ( %s = 0, qq = 5; %s < 3; %s++, qq -= 1 ) ", v, v, v); body(s->a); break;
		case K_EACH: e.o += sf("for ( %s : arr ) ", v); body(s->a); break;
		case K_EACHKV: e.o += sf("for ( kk%s, %s : arr ) { out(kk%s); ", v, v, v); em(s->a, e); e.o += "} "; break;
		case K_GOTO: { int l = e.labels++; e.o += sf("%s = 0; L%d: ++%s; ", v, l, v); em(s->a, e); e.o += sf("if ( %s < 3 ) { goto L%d; } ", v, l); break; }
		case K_SWITCH: e.o += sf("switch ( %s ) { case 0: out(1000); break; case 1: ", v); em(s->a, e); e.o += "case 2: out(1002); break; default: "; em(s->b, e); e.o += "} "; break;
		case K_SWITCHBIG: e.o += sf("switch ( %s * 1000 ) { case 0: out(1000); break; case 1000: ", v); em(s->a, e); e.o += "case 2000: out(1002); break; default: "; em(s->b, e); e.o += "} "; break;
	}
}
static void em(const Blk& b, Emit& e) { for (auto& s : b) em1(s, e); }

// ---- enumeration ----------------------------------------------------------
struct Gen {
	Ctx& c; int ids = 0; bool fn = false; int depthMax; int padAt = -1; int loopDepth = 0; int contDepth = 0; bool thorough; std::vector<std::string> used; std::string cv = "zero"; std::string tag;
	Gen(Ctx& c) : c(c) {}
	P out() { P p = mk(K_OUT); p->n = ++ids; return p; }
	Cond cond(int which) { Cond k; k.v = cv; static const int f[] = { 0, 1, 4, 3, 2, 9 }; k.form = f[which]; k.k = 2; if (k.form == 0) k.k = 1; if (k.form == 3) k.k = 1; if (k.form == 2) k.k = 2; return k; }
	P pad() { P p = mk(K_PAD); p->n = 30; return p; }
	Blk leaf() {
		// plain / break / continue / return, bare or conditional
		std::vector<int> opts = { 0 };
		if (loopDepth) { opts.push_back(1); opts.push_back(2); }
		if (contDepth) { opts.push_back(3); opts.push_back(4); }
		if (fn) { opts.push_back(5); opts.push_back(6); }
		int o = opts[c.choose((int)opts.size())]; tag += sf(" leaf%d", o);
		Blk b; b.push_back(out());
		auto cnd = [&](P x) { P i = mk(K_IF); i->c = cond(c.choose(thorough ? 4 : 2)); i->a.push_back(x); return i; };
		switch (o) {
			case 0: break;
			case 1: b.push_back(mk(K_BREAK)); break;
			case 2: b.push_back(cnd(mk(K_BREAK))); break;
			case 3: b.push_back(mk(K_CONT)); break;
			case 4: b.push_back(cnd(mk(K_CONT))); break;
			case 5: { P r = mk(K_RET); r->n = 77; b.push_back(r); break; }
			case 6: { P r = mk(K_RET); r->n = 78; b.push_back(cnd(r)); break; }
		}
		return b;
	}
	Blk block(int depth) {
		if (depth >= depthMax) return leaf();
		static const int kinds[] = { K_IF, K_IFELSE, K_ELSEIF, K_IFBARE, K_WHILE, K_FOR, K_DO, K_FOREVER, K_EACH, K_EACHKV, K_SWITCH, K_SWITCHBIG, K_BLOCK, K_GOTO, K_WHILE1, K_FORVAR };
		int nk = sizeof kinds / sizeof *kinds;
		int ch = c.choose(nk + (depth > 0 ? 1 : 0));
		if (ch == nk) return leaf();
		int k = kinds[ch]; if (k == K_BLOCK && (depth || fn)) throw Skip(); // a bare block is a statement at the top level only
		tag += std::string(" ") + kName[k];
		Blk b; P s = mk(k);
		s->v = sf("i%d", depth);
		std::string saveCv = cv; int sl = loopDepth, sc = contDepth;
		bool loop = k == K_WHILE || k == K_FOR || k == K_DO || k == K_FOREVER || k == K_EACH || k == K_EACHKV || k == K_WHILE1 || k == K_FORVAR;
		if (k == K_IF || k == K_IFELSE || k == K_IFBARE) { s->c = cond(c.choose(thorough ? 6 : 3)); }
		if (k == K_ELSEIF) { s->c = cond(0); s->c2 = cond(1); }
		if (loop) { ++loopDepth; ++contDepth; cv = s->v; used.push_back(s->v); }
		if (k == K_GOTO) { cv = s->v; used.push_back(s->v); }
		if (k == K_SWITCH || k == K_SWITCHBIG) { s->v = cv; ++loopDepth; } // selector: the nearest loop variable
		if (k == K_IFBARE) { // exactly one statement in the body
			Blk inner = block(depth + 1);
			P blk = inner.size() == 1 ? inner[0] : mk(K_BLOCK); if (inner.size() != 1) blk->a = inner;
			if (blk->kind == K_WHILE || blk->kind == K_WHILE1 || blk->kind == K_FOREVER || blk->kind == K_DO || blk->kind == K_GOTO) { P w = mk(K_BLOCK); w->a.push_back(blk); blk = w; } // these emit a leading assignment
			s->a.push_back(blk);
		} else s->a = block(depth + 1);
		if (padAt == depth && k != K_IFBARE) { s->a.insert(s->a.begin(), pad()); if (k == K_IFELSE || k == K_ELSEIF) { s->b.push_back(pad()); } }
		if (k == K_IFELSE) s->b.push_back(out());
		if (k == K_ELSEIF) { s->b.push_back(out()); s->d.push_back(out()); }
		if (k == K_SWITCH || k == K_SWITCHBIG) {
			int t = c.choose(contDepth ? 4 : 3); // the default clause, which ends the switch
			s->b.push_back(out());
			if (t == 1) s->b.push_back(mk(K_BREAK));
			if (t == 2) { P i = mk(K_IF); i->c.form = 0; i->c.v = cv; i->c.k = 77; i->a.push_back(mk(K_BREAK)); s->b.push_back(i); }
			if (t == 3) { P i = mk(K_IF); i->c.form = 0; i->c.v = cv; i->c.k = 3; i->a.push_back(mk(K_CONT)); s->b.push_back(i); }
			tag += sf(" d%d", t);
		}
		if (k == K_IFBARE || k == K_BLOCK) { }
		cv = saveCv; loopDepth = sl; contDepth = sc;
		b.push_back(out()); b.push_back(s); b.push_back(out());
		return b;
	}
};
static std::string program(const Blk& b, bool fn, const std::vector<std::string>& used, std::string pre = "") {
	Emit e; em(b, e);
	std::string decl; std::set<std::string> seen(used.begin(), used.end());
	for (auto& v : seen) decl += "var " + v + " = 0; var kk" + v + " = 0; ";
	std::string s = "var arr[] = { 0, 1, 2 }; var zero = 0; var one = 1; var pp = 0; var qq = 0; " + pre;
	if (fn) s += "function f() { " + decl + e.o + "return 5; }\nout(f()); out(9999);\n";
	else s += decl + "\n" + e.o + "\nout(9999);\n";
	return s;
}
static std::string want(const Blk& b, bool fn) {
	Env e; e.m["one"] = 1; Sig g = run(b, e);
	if (fn) e.out += sf("%d;", g == RET ? e.rv : 5);
	return e.out + "9999;";
}
static void check(Ctx& c, const Blk& b, bool fn, const std::vector<std::string>& used, const std::string& key) {
	std::string w = want(b, fn), src = program(b, fn, used);
	c.note(src); wr::RunOpt o; o.stack = 100;
	std::string got = wr::runScript(src, o);
	c.outcome(got); c.transition();
	if (got != w) c.fail(key, "got <" + got.substr(0, 400) + "> want <" + w.substr(0, 400) + ">", src);
}
static void nesting(Ctx& c) {
	Gen g(c); g.thorough = c.thorough(); g.fn = c.flag(); g.depthMax = c.thorough() ? 4 : 3; int pm = c.choose(g.depthMax); g.padAt = pm - 1;
	if (!c.thorough() && (pm > 2 || (pm && !g.fn))) throw Skip();
	if (g.thorough) g.thorough = false; // depth grows instead of the condition set
	int first = 0; (void)first;
	Blk b = g.block(0);
	c.split();
	check(c, b, g.fn, g.used, "nest:" + g.tag + (g.fn ? " fn" : "") + sf(" pad%d", g.padAt));
}
static void conditions(Ctx& c) { // shallower, every condition form
	Gen g(c); g.thorough = true; g.fn = c.flag(); g.depthMax = 2; g.padAt = c.choose(3) - 1;
	Blk b = g.block(0); c.split();
	check(c, b, g.fn, g.used, "cond:" + g.tag + (g.fn ? " fn" : "") + sf(" pad%d", g.padAt));
}
// statements without braces, empty statements, a loop or a switch as the last statement of a case; in a function whose parameters, locals and caller's temporaries are looked at afterwards
struct BareGen {
	Ctx& c; bool fn; int max; int ids = 0, loops = 0, conts = 0; std::string cv = "one", tag; std::vector<std::string> used;
	BareGen(Ctx& c) : c(c) {}
	P stmt(int depth, bool leafOnly, bool inBlock = false) {
		std::vector<int> k = { K_OUT, K_NOP };
		if (loops) k.push_back(K_BREAK);
		if (conts) k.push_back(K_CONT);
		if (fn) k.push_back(K_RET);
		if (!leafOnly && depth < max) for (int x : { K_IFBARE, K_IFELSEBARE, K_FORBARE, K_WHILEBARE, K_SWITCHB, K_BLOCK }) if (x != K_BLOCK || !inBlock) k.push_back(x); // a bare block is a statement at the top level only
		if (depth == 0) k = { K_IFBARE, K_IFELSEBARE, K_FORBARE, K_WHILEBARE, K_SWITCHB };
		P s = mk(k[c.choose((int)k.size())]); tag += std::string(" ") + kName[s->kind];
		std::string sv = cv; int sl = loops, sc = conts;
		switch (s->kind) {
			case K_OUT: s->n = ++ids; break;
			case K_RET: s->n = 77; break;
			case K_IFBARE: case K_IFELSEBARE:
				s->c.v = cv; s->c.form = 0; s->c.k = c.choose(2); s->a.push_back(stmt(depth + 1, false));
				// 'if (a) if (b) x; else y': the else belongs to the inner if
				if (s->kind == K_IFELSEBARE && (s->a[0]->kind == K_IFBARE || s->a[0]->kind == K_FORBARE || s->a[0]->kind == K_WHILEBARE)) throw Skip();
				if (s->kind == K_IFELSEBARE) s->b.push_back(stmt(depth + 1, true));
				break;
			case K_FORBARE: case K_WHILEBARE: s->v = sf("i%d", depth); used.push_back(s->v); cv = s->v; ++loops; ++conts; s->a.push_back(stmt(depth + 1, false)); break;
			case K_SWITCHB: s->v = cv; ++loops; if (c.flag()) { s->a.push_back(stmt(depth + 1, true)); s->b.push_back(stmt(depth + 1, false, true)); } else { s->a.push_back(stmt(depth + 1, false, true)); s->b.push_back(stmt(depth + 1, true)); } break;
			case K_BLOCK: s->a.push_back(stmt(depth + 1, false, true)); s->a.push_back(stmt(depth + 1, true)); break;
		}
		cv = sv; loops = sl; conts = sc; return s;
	}
};
static void bare(Ctx& c) {
	BareGen g(c); g.fn = c.flag(); g.max = c.thorough() ? 4 : 3;
	Blk b; b.push_back(g.stmt(0, false)); c.split();
	Env e; e.m["one"] = 1; Sig r = run(b, e);
	std::string src = "var one = 1; ", w = e.out; Emit m; em(b, m); std::string decl;
	std::set<std::string> seen(g.used.begin(), g.used.end()); for (auto& v : seen) decl += "var " + v + " = 0; ";
	if (g.fn) {
		src += "function f(pa, pb) { var g1 = 41; " + decl + "var g2 = 42; " + m.o + "out(pa, pb, g1, g2); return 5; }\nvar h = 6; out(100 + f(11, 12) * 10 + h); out(h, one);\n";
		if (r != RET) w += "11 12 41 42;";
		w += sf("%d;6 1;", 106 + 10 * (r == RET ? e.rv : 5));
	} else { src += decl + m.o + "out(9999); out(one);"; w += "9999;1;"; }
	c.note(src); wr::RunOpt o; o.stack = 100; std::string got = wr::runScript(src, o); c.outcome(got); c.transition();
	if (got != w) c.fail("bare:" + g.tag + (g.fn ? " fn" : ""), "got <" + got.substr(0, 300) + "> want <" + w.substr(0, 300) + ">", src);
}
// two constructs in sequence: state left behind by one must not leak into the next
static void sequence(Ctx& c) {
	Gen g(c); g.thorough = false; g.fn = c.flag(); g.depthMax = 1;
	Blk b = g.block(0); Blk b2; { int s = g.ids; (void)s; b2 = g.block(0); }
	for (auto& s : b2) b.push_back(s);
	if (c.thorough()) { Blk b3 = g.block(0); for (auto& s : b3) b.push_back(s); }
	c.split();
	check(c, b, g.fn, g.used, "seq:" + g.tag + (g.fn ? " fn" : ""));
}
// body sizes that walk every branch offset across the narrow/wide encodings
static void offsets(Ctx& c) {
	static const int kinds[] = { K_IF, K_IFELSE, K_ELSEIF, K_WHILE, K_FOR, K_DO, K_FOREVER, K_EACH, K_EACHKV, K_SWITCH, K_SWITCHBIG, K_GOTO, K_WHILE1, K_FORVAR };
	int k = kinds[c.choose(sizeof kinds / sizeof *kinds)]; bool fn = c.flag(); int cf = (k == K_IF || k == K_IFELSE) ? c.choose(10) : 0;
	int n = c.choose(c.thorough() ? 70 : 36), p = c.choose(4); int jump = c.choose(3); // the body leaves by falling out / break / continue
	c.split();
	Gen g(c); g.thorough = false; g.fn = fn; P s = mk(k); s->v = "i0"; std::vector<std::string> used = { "i0" };
	bool loop = !(k == K_IF || k == K_IFELSE || k == K_ELSEIF || k == K_SWITCH || k == K_SWITCHBIG || k == K_GOTO);
	if (!loop && jump) throw Skip();
	P pd = mk(K_PAD); pd->n = n; pd->pad = p;
	s->a.push_back(pd); s->a.push_back(g.out());
	if (jump) { P i = mk(K_IF); i->c.form = 0; i->c.v = "i0"; i->c.k = 1; i->a.push_back(mk(jump == 1 ? K_BREAK : K_CONT)); s->a.push_back(i); s->a.push_back(g.out()); P pd2 = mk(K_PAD); pd2->n = n; pd2->pad = p; s->a.push_back(pd2); }
	s->c.form = cf; s->c.v = "one"; s->c.k = 1; s->c2.form = 0; s->c2.v = "zero"; s->c2.k = 0; if (k == K_ELSEIF) { s->c.form = 0; s->c.k = 7; }
	s->b.push_back(g.out()); s->b.push_back(pd); s->d.push_back(pd);
	if (k == K_SWITCH || k == K_SWITCHBIG) { s->v = "one"; s->b.clear(); s->b.push_back(pd); }
	Blk b; b.push_back(s); b.push_back(g.out());
	check(c, b, fn, used, sf("off:%s:%d:%d:%d:%d", kName[k], cf, n, p, jump));
}
// code sizes around the signed 16-bit branch limit: the program either behaves or is rejected by the compiler
static void huge(Ctx& c) {
	static const int kinds[] = { K_IF, K_IFELSE, K_WHILE, K_FOR, K_DO, K_EACH, K_EACHKV, K_SWITCH, K_SWITCHBIG, K_GOTO };
	int k = kinds[c.choose(10)]; bool fn = c.flag(); int where = c.choose(3); // in the body / in front of the construct / in the other branch
	static const int sizes[] = { 5420, 5452, 5454, 5456, 5457, 5458, 5459, 5460, 5461, 5464, 6000, 10923 };
	int n = sizes[c.choose(12)], p = 0;
	c.split();
	Gen g(c); g.thorough = false; g.fn = fn; P s = mk(k); s->v = "i0"; std::vector<std::string> used = { "i0" };
	P pd = mk(K_PAD); pd->n = n; pd->pad = p;
	if (where == 0) s->a.push_back(pd);
	s->a.push_back(g.out());
	s->c.form = 0; s->c.v = "one"; s->c.k = where == 2 ? 0 : 1;
	s->b.push_back(g.out()); if (where == 2) s->b.push_back(pd);
	if (k == K_SWITCH || k == K_SWITCHBIG) s->v = "one";
	Blk b; if (where == 1) b.push_back(pd); b.push_back(s); b.push_back(g.out());
	std::string w = want(b, fn), src = program(b, fn, used);
	c.note(src); wr::RunOpt o; o.stack = 100; std::string got = wr::runScript(src, o); c.outcome(got); c.transition();
	if (got.compare(0, 7, "COMPILE") == 0 && n > 5400) return;
	if (got != w) c.fail(sf("huge:%s:%d:%d:%d", kName[k], where, n, p), "got <" + got.substr(0, 200) + "> want <" + w.substr(0, 200) + ">");
}
// a function called far away from its definition
static void distant(Ctx& c) {
	static const int sizes[] = { 0, 100, 2500, 5400, 5461, 8000, 10900, 10923, 12000, 20000, 44000 };
	int n = sizes[c.choose(c.thorough() ? 9 : 3)], q = c.choose(3), shape = c.choose(3); c.split();
	Emit e; P pd = mk(K_PAD); pd->n = n; pd->pad = q; em1(pd, e);
	std::string src = "var pp = 0; function g(x) { return x + 1; } ";
	std::string fill = "function filler(pp) { " + e.o + " return 3; } ";
	std::string fns = "function h(x) { return g(x) * 2; } function k2(x) { var t = 0; for ( var i = 0; i < 3; ++i ) { t += h(i); } return t; } ";
	if (shape == 0) src += fill + fns + "out(k2(1), h(4), filler(0)); out(g(7));"; else if (shape == 1) src += fns + e.o + "out(k2(1), h(4), 3); out(g(7));"; else src += "out(k2(1), h(4), 3); out(g(7)); " + fill + fns;
	std::string w = "12 10 3;8;"; c.note(src); wr::RunOpt o; o.stack = 100; std::string got = wr::runScript(src, o); c.outcome(got);
	if (n > 5400 && got.compare(0, 7, "COMPILE") == 0) return;
	if (got != w) c.fail(sf("distant:%d:%d:%d", shape, n, q), "got <" + got + "> want <" + w + ">");
}
// switch: every ordered choice of labels, every break/fall-through pattern, every place of default, every selector
static void switches(Ctx& c) {
	static const char* lab[] = { "0", "1", "2", "5", "252", "253", "254", "300", "1000", "65536", "'a'", "\"ab\"" };
	static const int nl = 12;
	int n = c.choose(c.thorough() ? 5 : 4); std::vector<int> L; std::set<int> S;
	int pool = n >= 3 && !c.thorough() ? 9 : nl;
	static const int order9[] = { 0, 1, 3, 5, 6, 7, 8, 9, 11 };
	for (int i = 0; i < n; ++i) { int x = c.choose(pool); if (pool == 9) x = order9[x]; if (S.count(x)) throw Skip(); S.insert(x); L.push_back(x); }
	int brk = c.choose(1 << n), dpos = c.choose(n + 2) - 1, dbrk = dpos >= 0 ? c.choose(2) : 0; // dpos -1: none
	bool fn = c.flag();
	if (fn && n >= 3 && !c.thorough()) throw Skip();
	c.split();
	std::string body = "switch ( s ) { "; 
	for (int i = 0; i <= n; ++i) {
		if (dpos == i) body += sf("default: out(\"d\"); %s", dbrk ? "break; " : "");
		if (i < n) body += sf("case %s: out(%d); %s", lab[L[i]], i, brk >> i & 1 ? "break; " : "");
	}
	body += "} ";
	std::string src = std::string("var s = 0; ") + (fn ? "function f(s) { " + body + "out(77); } " : "");
	std::string w; 
	static const char* sel[] = { "0", "1", "2", "5", "252", "253", "254", "300", "1000", "65536", "'a'", "\"ab\"", "3", "255", "256", "-1", "65537", "\"zz\"", "2147483647" };
	for (int q = 0; q < 19; ++q) {
		src += fn ? sf("f(%s);\n", sel[q]) : sf("s = %s; ", sel[q]) + body + "\n";
		int start = -1; for (int i = 0; i < n; ++i) if (L[i] == q) start = i;
		bool useD = start < 0; if (useD && dpos < 0) { if (fn) w += "77;"; continue; }
		bool on = false;
		for (int i = 0; i <= n; ++i) {
			if (dpos == i) { if (useD) on = true; if (on) { w += "\"d\";"; if (dbrk) break; } }
			if (i < n) { if (!useD && i == start) on = true; if (on) { w += sf("%d;", i); if (brk >> i & 1) break; } }
		}
		if (fn) w += "77;";
	}
	c.note(src); wr::RunOpt o; std::string got = wr::runScript(src, o); c.outcome(got); c.transition(19);
	std::string key = "switch"; for (int l : L) key += std::string(":") + lab[l]; key += sf(":b%d:d%d%d%s", brk, dpos, dbrk, fn ? ":fn" : "");
	if (got != w) c.fail(key, "got <" + got.substr(0, 300) + "> want <" + w.substr(0, 300) + ">", src);
}
// string case labels of every byte, written raw or escaped, next to a neighbour label: selected by exactly the equal string (also when it was built at run time)
static void caseBytes(Ctx& c) {
	int b = c.choose(256), mode = c.choose(2), shape = c.choose(4); c.split();
	auto lit = [&](const std::string& v, int md) { std::string o; for (size_t i = 0; i < v.size(); ++i) { unsigned char ch = v[i]; if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch == 0 || (md && (ch < 32 || ch > 126))) o += sf("\\0%d", ch); else o += ch; } return "\"" + o + "\""; };
	auto form = [&](int x) { std::string k(1, (char)x); return shape == 0 ? k : shape == 1 ? "q" + k : shape == 2 ? k + "q" : "q" + k + "q" + k; };
	int nb = (b + 1) & 255; if (shape == 2 && mode == 1) throw Skip(); if (b == 13 || nb == 13) { if (!mode) throw Skip(); }
	std::string src = "function f(s) { switch ( s ) { case " + lit(form(b), mode) + ": return 1; case " + lit(form(nb), 1 - mode) + ": return 2; default: return 3; } }\n";
	std::string w; static const int sel[] = { 0, 1, 9, 10, 32, 34, 39, 47, 65, 92, 126, 127, 128, 129, 191, 192, 254, 255 }; std::set<int> S(sel, sel + 18); S.insert(b); S.insert(nb); S.insert(b ^ 128); S.insert(b ^ 32); S.insert((b + 255) & 255);
	for (int q : S) for (int rt = 0; rt < 2; ++rt) { std::string v = form(q); if (rt && v.size() < 2) continue; if (rt && v.find('\0') != std::string::npos) continue; src += "out(f(" + (rt ? lit(v.substr(0, 1), 1) + " + " + lit(v.substr(1), 1) : lit(v, 1)) + "));\n"; w += q == b ? "1;" : q == nb ? "2;" : "3;"; }
	std::string key = sf("caseBytes:%d:%d:%d", b, mode, shape); c.id(key); c.note(key); wr::RunOpt o; std::string got = wr::runScript(src, o); c.outcome(got); c.transition((int)S.size());
	if (got != w) c.fail(key, "got <" + got.substr(0, 300) + "> want <" + w.substr(0, 300) + ">", src);
}
MC_MAIN({ "nesting", nesting, false }, { "conditions", conditions, false }, { "bare", bare, false }, { "sequence", sequence, false }, { "offsets", offsets, false }, { "huge", huge, true }, { "distant", distant, false }, { "switches", switches, false }, { "caseBytes", caseBytes, false })
