// P04: arrays, lists, queues, stacks and hash tables against an abstract model, over every operation sequence.
#include "wr.h"
using namespace mc;
typedef std::vector<std::string> Vec;
static std::string showVec(const Vec& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i]; return s + "]"; }
static std::string run(Ctx& c, const std::string& src, int stack = 128) { c.note(src); wr::RunOpt o; o.libs = true; o.stack = stack; return wr::runScript(src, o); }
static void check(Ctx& c, const std::string& src, const std::string& w, const std::string& key) {
	std::string got = run(c, src); c.outcome(got); c.trace();
	if (got != w) { size_t i = 0; while (i < got.size() && i < w.size() && got[i] == w[i]) ++i; c.fail(key, sf("first difference at %zu: ", i) + "got <" + got.substr(0, 500) + "> want <" + w.substr(0, 500) + ">", src); }
}
// ---- where the container lives, and what is stored in it -------------------
enum { PL_GLOBAL, PL_LOCAL, PL_STRUCT, PL_ELEM, PL_HASH, PL_PARAM, NPL };
static const char* plExpr[] = { "ga", "la", "gs.m", "gx[1]", "gh.q", "pa" };
static std::string wrapPlace(int pl, const std::string& decls, const std::string& body) {
	std::string s = "struct S { var m; };\nvar ga; var gs = new S(); var gx[3]; var gh = { \"q\": 0, \"z\": 9 }; var gv = 0; var other[] = { 51, 52, 53 };\n";
	if (pl == PL_LOCAL) return s + "function t() { var la; var lv = 0; " + decls + body + "}\nt();\n";
	if (pl == PL_PARAM) return s + "function t(pa) { var lv = 0; " + body + "}\nvar pa; " + decls + "t(pa);\n";
	return s + "var lv = 0; " + decls + body + "\n";
}
// clear/create through a named variable: an element passed as an argument is a value
static std::string mkArr(const std::string& A, const char* n = "") { if (A.find_first_of("[.") == std::string::npos) return "array::clear(" + A + n + "); "; return std::string("gv = 0; array::clear(gv") + n + "); " + A + " = gv; gv = 0; "; }
static std::string mkHash(const std::string& A) { if (A.find_first_of("[.") == std::string::npos) return "hash::clear(" + A + "); "; return "gv = 0; hash::clear(gv); " + A + " = gv; gv = 0; "; }
enum { VK_INT, VK_GLOBAL, VK_LOCAL, VK_STR, VK_ELEM, VK_FLOAT, VK_EXPR, VK_NEST, NVK };
// text of the stored value, text to run afterwards (changes the source variable), rendering
struct Val { std::string pre, txt, post, show; };
static Val mkVal(int k, int n) {
	switch (k) {
		case VK_INT: return { "", sf("%d", 100 + n), "", sf("%d", 100 + n) };
		case VK_GLOBAL: return { sf("gv = %d; ", 200 + n), "gv", "gv = 7; ", sf("%d", 200 + n) };
		case VK_LOCAL: return { sf("lv = %d; ", 300 + n), "lv", "lv = 8; ", sf("%d", 300 + n) };
		case VK_STR: return { "", sf("\"s%d\"", n), "", sf("\"s%d\"", n) };
		case VK_ELEM: return { sf("other[1] = %d; ", 400 + n), "other[1]", "other[1] = 6; ", sf("%d", 400 + n) };
		case VK_FLOAT: return { "", sf("%d.5", 500 + n), "", sf("f%d.5", 500 + n) };
		case VK_EXPR: return { sf("gv = %d; ", n), "(gv + 600)", "gv = 3; ", sf("%d", 600 + n) };
		case VK_NEST: return { sf("gv = { %d, 2 }; ", 700 + n), "gv", "gv = 0; ", sf("[%d,2]", 700 + n) };
	}
	return Val();
}
// ---- arrays ----------------------------------------------------------------
struct AOp { const char* name; int kind, a, b; };
enum { SET, PUSHB, PUSHF, QPUSH, SPUSH, POPF, POPB, QPOP, SPOP, INS, REM, TRUNC, CLR, UREM, PEEK, QPEEK, GET, LPOP, LPUSHF, LPEEK, CNT, FOR, NOPK };
static const AOp aops[] = {
	{ "set0", SET, 0, 0 }, { "set1", SET, 1, 0 }, { "set3", SET, 3, 0 }, { "push_back", PUSHB, 0, 0 }, { "push", PUSHF, 0, 0 }, { "qpush", QPUSH, 0, 0 }, { "pop_front", POPF, 0, 0 }, { "pop_back", POPB, 0, 0 },
	{ "qpop", QPOP, 0, 0 }, { "ins0", INS, 0, 1 }, { "ins1x2", INS, 1, 2 }, { "ins2", INS, 2, 1 }, { "rem0", REM, 0, 1 }, { "rem1x2", REM, 1, 2 }, { "rem2x9", REM, 2, 9 }, { "trunc1", TRUNC, 1, 0 }, { "trunc4", TRUNC, 4, 0 }, { "clear", CLR, 0, 0 }, { "clear2", CLR, 2, 1 },
	{ "_rem0", UREM, 0, 0 }, { "_rem2", UREM, 2, 0 }, { "peek", PEEK, 0, 0 }, { "qpeek", QPEEK, 0, 0 }, { "get1", GET, 1, 0 }, { "spush", SPUSH, 0, 0 }, { "spop", SPOP, 0, 0 }, { "foreach", FOR, 0, 0 }, { "ins1", INS, 1, 1 }, { "trunc0", TRUNC, 0, 0 } };
enum { NAOPS = sizeof(aops) / sizeof(aops[0]) };
static std::string applyA(const AOp& o, Vec& m, const std::string& A, int vk, int n, std::string& w, bool& ok) {
	ok = true; std::string s; Val v = mkVal(vk, n); const char* a = A.c_str();
	switch (o.kind) {
		case SET: s = v.pre + sf("%s[%d] = ", a, o.a) + v.txt + "; " + v.post; while ((int)m.size() <= o.a) m.push_back("0"); m[o.a] = v.show; break;
		case PUSHB: s = v.pre + sf("list::push_back(%s, ", a) + v.txt + "); " + v.post; m.push_back(v.show); break;
		case PUSHF: s = v.pre + sf("list::push(%s, ", a) + v.txt + "); " + v.post; m.insert(m.begin(), v.show); break;
		case QPUSH: s = v.pre + sf("queue::push(%s, ", a) + v.txt + "); " + v.post; m.insert(m.begin(), v.show); break;
		case SPUSH: s = v.pre + sf("stack::push(%s, ", a) + v.txt + "); " + v.post; m.insert(m.begin(), v.show); break;
		case POPF: s = sf("out(list::pop_front(%s)); ", a); if (m.empty()) w += "0;"; else { w += m[0] + ";"; m.erase(m.begin()); } break;
		case SPOP: s = sf("out(stack::pop(%s)); ", a); if (m.empty()) w += "0;"; else { w += m[0] + ";"; m.erase(m.begin()); } break;
		case POPB: s = sf("out(list::pop_back(%s)); ", a); if (m.empty()) w += "0;"; else { w += m.back() + ";"; m.pop_back(); } break;
		case QPOP: s = sf("out(queue::pop(%s)); ", a); if (m.empty()) w += "0;"; else { w += m.back() + ";"; m.pop_back(); } break;
		case INS: if (o.a > (int)m.size()) { ok = false; return ""; } s = o.b == 1 ? sf("array::insert(%s, %d); ", a, o.a) : sf("array::insert(%s, %d, %d); ", a, o.a, o.b); m.insert(m.begin() + o.a, o.b, "0"); break;
		case REM: s = o.b == 1 ? sf("array::remove(%s, %d); ", a, o.a) : sf("array::remove(%s, %d, %d); ", a, o.a, o.b); for (int i = 0; i < o.b && o.a < (int)m.size(); ++i) m.erase(m.begin() + o.a); break;
		case TRUNC: s = sf("array::truncate(%s, %d); ", a, o.a); if ((int)m.size() > o.a) m.resize(o.a); break;
		case CLR: s = mkArr(A, o.b ? sf(", %d", o.a).c_str() : ""); m.assign(o.a, "0"); break;
		case UREM: s = sf("%s._remove(%d); ", a, o.a); if (o.a < (int)m.size()) m.erase(m.begin() + o.a); break;
		case PEEK: s = sf("out(list::peek(%s)); ", a); w += (m.empty() ? std::string("0") : m[0]) + ";"; break;
		case QPEEK: s = sf("out(queue::peek(%s)); ", a); w += (m.empty() ? std::string("0") : m.back()) + ";"; break;
		case GET: if (o.a >= (int)m.size()) { ok = false; return ""; } s = sf("out(%s[%d]); ", a, o.a); w += m[o.a] + ";"; break;
		case FOR: s = sf("gv = %s; for ( var k%d, var e%d : gv ) { out(k%d, e%d); } gv = 0; ", a, n, n, n, n); for (size_t i = 0; i < m.size(); ++i) w += sf("%zu ", i) + m[i] + ";"; break;
	}
	return s;
}
static void arrays(Ctx& c) {
	int mode = c.choose(3); int pl = PL_GLOBAL, vk = VK_INT, len = 4;
	if (mode == 0) { pl = c.choose(NPL); len = 2; } else if (mode == 1) { vk = 1 + c.choose(NVK - 1); len = c.thorough() || vk == VK_GLOBAL || vk == VK_NEST ? 3 : 2; if (vk == VK_LOCAL) pl = PL_LOCAL; }
	else { len = c.thorough() ? 4 : 3; }
	int n0 = c.choose(4); Vec m; std::vector<int> seq; std::string A = plExpr[pl], body, w;
	for (int i = 0; i < n0; ++i) m.push_back(sf("%d", 10 + i));
	std::string decl; if (n0 == 0) decl = mkArr(A); else { decl = "gv = {"; for (int i = 0; i < n0; ++i) decl += sf("%s%d", i ? "," : "", 10 + i); decl += "}; " + A + " = gv; gv = 0; "; }
	std::string key = sf("arr:%d:%d:%d", pl, vk, n0);
	for (int i = 0; i < len; ++i) {
		int o = c.choose(NAOPS); if (i == 1) c.split(); bool ok; std::string s = applyA(aops[o], m, A, vk, i, w, ok); if (!ok) throw Skip();
		body += s + "out(" + A + "); out(" + A + "._count); "; w += showVec(m) + ";" + sf("%d;", (int)m.size()); c.state("a" + showVec(m)); c.transition(); key += std::string(":") + aops[o].name;
	}
	check(c, wrapPlace(pl, decl, body), w, key);
}
// beyond the documented index range: nothing may break, the elements before the index stay
static void arrayEdges(Ctx& c) {
	static const int nums[] = { -2147483647 - 1, -1, 0, 1, 2, 3, 4, 7 };
	int n0 = c.choose(4), op = c.choose(8), x = c.pick(nums), y = c.pick(nums), arg = c.choose(3), pl = c.choose(2); c.split();
	Vec m; std::string A = plExpr[pl], decl, b, w; for (int i = 0; i < n0; ++i) m.push_back(sf("%d", 10 + i));
	if (n0 == 0) decl = mkArr(A); else { decl = "gv = {"; for (int i = 0; i < n0; ++i) decl += sf("%s%d", i ? "," : "", 10 + i); decl += "}; " + A + " = gv; "; }
	const char* a = A.c_str(); int keep = 0; // how many leading elements must survive
	auto call = [&](const char* f) { b += arg == 0 ? sf("%s(%s); ", f, a) : arg == 1 ? sf("%s(%s, %d); ", f, a, x) : sf("%s(%s, %d, %d); ", f, a, x, y); };
	switch (op) {
		case 0: call("array::insert"); keep = x < 0 ? 0 : std::min(x, n0); if (arg == 2 && (y > 4096 || y < 0)) keep = 0; break;
		case 1: call("array::remove"); keep = x < 0 ? n0 : std::min(x, n0); if (arg == 0) keep = n0; if (arg == 2 && y < 0) keep = 0; break;
		case 2: call("array::truncate"); keep = x < 0 ? 0 : std::min(x, n0); if (arg == 0) keep = 0; break;
		case 3: if (x < 0 || x > 4) throw Skip(); call("array::clear"); keep = 0; break;
		case 4: if (arg) throw Skip(); b += sf("%s._remove(%d); ", a, x); keep = x < 0 ? n0 : std::min(x, n0); break;
		case 5: if (arg) throw Skip(); b += sf("out(list::push_back(%s)); out(list::push(%s)); ", a, a); keep = 0; break;
		case 6: b += arg == 0 ? "list::push(); list::push_back(); list::pop(); list::pop_back(); list::peek(); array::count(); " : arg == 1 ? sf("list::push(5, %d); list::pop(%d); list::peek(%d); array::count(%d); array::insert(%d, 1); array::remove(%d, 0); array::truncate(%d, 1); ", x, x, x, x, x, x, x) : "list::pop(\"abc\"); list::peek(\"abc\"); list::push(\"abc\", 1); array::remove(\"abc\", 0); array::truncate(\"abc\", 1); array::insert(\"abc\", 1); "; keep = n0; break;
		case 7: if (arg || x > 8 || x < 0) throw Skip(); b += sf("out(%s[%d] + 0); ", a, x); keep = n0; break;
	}
	std::string src = wrapPlace(pl, decl, b + sf("out(%s); out(%s._count); list::push_back(%s, 77); out(%s); ", a, a, a, a));
	std::string got = run(c, src); c.outcome(got); c.transition(); c.trace();
	// shape: last three reports are the array, its count, the array with 77 appended
	std::vector<std::string> rep; { std::string t; for (char ch : got) { if (ch == ';') { rep.push_back(t); t.clear(); } else t += ch; } if (!t.empty()) rep.push_back(t); }
	std::string key = sf("edge:%d:%d:%d:%d:%d", op, n0, x, y, arg);
	if (rep.size() < 3) { c.fail(key, "no output: " + got, src); return; }
	std::string r1 = rep[rep.size() - 3], cnt = rep[rep.size() - 2], r2 = rep[rep.size() - 1];
	std::string pre = "["; for (int i = 0; i < keep; ++i) pre += (i ? "," : "") + m[i];
	if (r1.compare(0, pre.size(), pre)) { c.fail(key, "leading elements lost: " + got, src); return; }
	int commas = 0; for (char ch : r1) commas += ch == ','; int size = r1 == "[]" ? 0 : commas + 1;
	if (cnt != sf("%d", size) || r2 != (size ? r1.substr(0, r1.size() - 1) + ",77]" : "[77]")) { c.fail(key, "inconsistent array: " + got, src); return; }
	if (op == 1 && x >= 0 && x < n0 && (arg == 1 || (arg == 2 && y >= 0))) { int k = arg == 1 ? 1 : y; int want = n0 - std::min(k, n0 - x); if (size != want) c.fail(key, "wrong size: " + got, src); }
	if ((op == 1 && (x < 0 || x >= n0) && arg && !(arg == 2 && y < 0)) || (op == 4 && (x < 0 || x >= n0)) || op == 6) if (size != n0) c.fail(key, "size changed: " + got, src);
}
// ---- hash tables -------------------------------------------------------------
struct Key { const char* txt; const char* show; };
static const Key keys[] = { { "1", "1" }, { "12", "12" }, { "23", "23" }, { "34", "34" }, { "188", "188" }, { "375", "375" }, { "\"a\"", "\"a\"" }, { "\"bb\"", "\"bb\"" }, { "2.5", "f2.5" }, { "0", "0" }, { "-1", "-1" }, { "'c'", "99" } };
enum { NKEYS = sizeof(keys) / sizeof(keys[0]) };
typedef std::map<std::string, std::string> Map;
static std::string showMap(const Map& m) { std::vector<std::string> kv; for (auto& e : m) kv.push_back(e.first + ":" + e.second); std::sort(kv.begin(), kv.end()); std::string s = "{"; for (size_t i = 0; i < kv.size(); ++i) s += (i ? "," : "") + kv[i]; return s + "}"; }
static const int groups[][6] = { { 0, 1, 2, 3, 4, 5 }, { 6, 0, 9, 10, 7, 8 }, { 0, 9, 2, 11, 6, 4 } };
// set / add / remove / exists / read on colliding keys, from tables pre-filled so that probe chains and growth are reached
static void hashes(Ctx& c) {
	int g = c.choose(3), pre = c.choose(4), pad = c.choose(c.thorough() ? 5 : 3), pl = c.choose(c.thorough() ? NPL : 2), vk = c.choose(c.thorough() ? 3 : 1), K = c.thorough() ? (pl < 2 && !vk ? 5 : 3) : pl ? 4 : 3, len = pl && !c.thorough() ? 2 : 3;
	static const int padN[] = { 0, 3, 12, 1, 6 }; Map m; std::string A = plExpr[pl], body, w, decl = mkHash(A); const char* a = A.c_str();
	for (int i = 0; i < padN[pad]; ++i) { decl += sf("%s[%d] = %d; ", a, 1000 + i * 5, i); m[sf("%d", 1000 + i * 5)] = sf("%d", i); }
	for (int i = 0; i < pre; ++i) { const Key& k = keys[groups[g][i]]; decl += sf("%s[%s] = %d; ", a, k.txt, 90 + i); m[k.show] = sf("%d", 90 + i); }
	std::string key = sf("hash:%d:%d:%d:%d:%d", g, pre, pad, pl, vk);
	for (int i = 0; i < len; ++i) {
		int o = c.choose(7), ki = c.choose(o == 6 ? 1 : K); if (i == 0) c.split(); const Key& k = keys[groups[g][ki]]; Val v = mkVal(vk == 0 ? VK_INT : vk == 1 ? VK_STR : VK_GLOBAL, i); bool has = m.count(k.show);
		switch (o) {
			case 0: body += v.pre + sf("%s[%s] = ", a, k.txt) + v.txt + "; " + v.post; m[k.show] = v.show; break;
			case 1: body += v.pre + sf("hash::add(%s, ", a) + v.txt + sf(", %s); ", k.txt) + v.post; m[k.show] = v.show; break;
			case 2: body += sf("out(hash::remove(%s, %s) == 1); ", a, k.txt); w += has ? "1;" : "0;"; m.erase(k.show); break;
			case 3: body += sf("%s._remove(%s); ", a, k.txt); m.erase(k.show); break;
			case 4: body += sf("out(hash::exists(%s, %s) == 1); out(%s._exists(%s)); ", a, k.txt, a, k.txt); w += has ? "1;1;" : "0;0;"; break;
			case 5: if (!has) m[k.show] = "0"; body += sf("out(%s[%s]); ", a, k.txt); w += m[k.show] + ";"; break;
			case 6: body += mkHash(A); m.clear(); break;
		}
		body += sf("out(%s); out(hash::count(%s)); out(%s._count); ", a, a, a); w += showMap(m) + ";" + sf("%d;%d;", (int)m.size(), (int)m.size()); c.state("h" + showMap(m)); c.transition(); key += sf(":%d.%d", o, ki);
	}
	for (int ki = 0; ki < K; ++ki) { const Key& k = keys[groups[g][ki]]; body += sf("out(%s._exists(%s)); ", a, k.txt); w += m.count(k.show) ? "1;" : "0;"; if (m.count(k.show)) { body += sf("out(%s[%s]); ", a, k.txt); w += m[k.show] + ";"; } }
	check(c, wrapPlace(pl, decl, body), w, key);
}
// many keys: growth through every table size, then removal, re-insertion, iteration
static void hashGrowth(Ctx& c) {
	static const int strides[] = { 1, 2, 5, 11, 17, 23, 31, 53, 97, 193, 389, 187, 935, 65536 };
	int st = c.pick(strides), n = c.choose(13), start = c.choose(4), kind = c.choose(2); c.split();
	static const int ns[] = { 1, 2, 3, 5, 8, 12, 18, 24, 33, 60, 100, 180, 300 }; int N = ns[n]; if (kind == 1 && st != 1 && st != 2 && st != 5) throw Skip();
	if ((long)st * N > 200000000L) throw Skip();
	std::string ks = kind ? sf("\"k\" + (i * %d)", st) : sf("%d + i * %d", start * 7 - 9, st);
	std::string src = "var h; hash::clear(h); var i; var s = 0; var n = 0; var bad = 0; ";
	src += sf("for ( i = 0; i < %d; ++i ) { h[%s] = i * 3; } out(h._count); ", N, ks.c_str());
	src += sf("for ( i = 0; i < %d; ++i ) { if ( h[%s] != i * 3 ) { ++bad; } if ( !h._exists(%s) ) { ++bad; } } out(bad, h._count); ", N, ks.c_str(), ks.c_str());
	src += "for ( var v : h ) { s += v; ++n; } out(s, n); ";
	src += sf("for ( i = 0; i < %d; i += 2 ) { h._remove(%s); } out(h._count); n = 0; for ( var v2 : h ) { ++n; } out(n); ", N, ks.c_str());
	src += sf("for ( i = 0; i < %d; ++i ) { if ( h._exists(%s) != (i & 1) ) { ++bad; } } out(bad); ", N, ks.c_str());
	src += sf("for ( i = %d; i >= 0; --i ) { h[%s] = i + 1; } out(h._count); n = 0; for ( var v3 : h ) { ++n; } out(n); ", N - 1, ks.c_str());
	src += sf("for ( i = 0; i < %d; ++i ) { if ( h[%s] != i + 1 ) { ++bad; } } out(bad); ", N, ks.c_str());
	std::string w = sf("%d;0 %d;%d %d;%d;%d;0;%d;%d;0;", N, N, N * (N - 1) / 2 * 3, N, N / 2, N / 2, N, N);
	c.transition(N * 6); check(c, src, w, sf("grow:%d:%d:%d:%d", st, N, start, kind));
}
// ---- references: assignment of a container shares it -------------------------
static void sharing(Ctx& c) {
	// objects: list of Vec; variables a, b, h.x, s.m hold either int or an object
	int len = c.thorough() ? 5 : 4; std::vector<Vec> heap = { { "1", "2" }, { "5" } }; int va[3] = { 0, 1, -1 }; // -1: int 0
	static const char* nm[3] = { "a", "gs.m", "gh.q" };
	std::string body = "var a; gv = {1,2}; a = gv; gv = {5}; gs.m = gv; gv = 0; gh.q = 0; ", w, key = "share";
	for (int i = 0; i < len; ++i) {
		int o = c.choose(6), x = c.choose(3), y = o == 0 || o == 5 ? c.choose(3) : 0; if (i == 1) c.split();
		if (o == 0) { if (x == y) throw Skip(); body += sf("%s = %s; ", nm[x], nm[y]); va[x] = va[y]; }
		else {
			if (va[x] < 0) throw Skip(); Vec& v = heap[va[x]];
			if (o == 1) { body += sf("%s[0] = %d; ", nm[x], 60 + i); if (v.empty()) v.push_back("0"); v[0] = sf("%d", 60 + i); }
			if (o == 2) { body += sf("list::push_back(%s, %d); ", nm[x], 70 + i); v.push_back(sf("%d", 70 + i)); }
			if (o == 3) { body += sf("list::pop(%s); ", nm[x]); if (!v.empty()) v.erase(v.begin()); }
			if (o == 4) { body += sf("%s[3] = %d; ", nm[x], 80 + i); while (v.size() < 4) v.push_back("0"); v[3] = sf("%d", 80 + i); }
			if (o == 5) { body += mkArr(nm[x]); if (y) throw Skip(); heap.push_back(Vec()); va[x] = (int)heap.size() - 1; }
		}
		std::string st; body += "out(a); out(gs.m); out(gh.q); "; for (int q = 0; q < 3; ++q) st += (va[q] < 0 ? std::string("0") : showVec(heap[va[q]])) + ";"; w += st; c.state("s" + st); c.transition(); key += sf(":%d.%d.%d", o, x, y);
	}
	check(c, wrapPlace(PL_GLOBAL, "", body), w, key);
}
// ---- literals and nesting ----------------------------------------------------
static std::string lit(Ctx& c, int depth, std::string& show) {
	int k = c.choose(depth > 0 ? 8 : 5); std::string s;
	switch (k) {
		case 0: show = "7"; return "7"; case 1: show = "f1.5"; return "1.5"; case 2: show = "\"x\""; return "\"x\""; case 3: show = "41"; return "gv"; case 4: show = "-3"; return "-3";
		case 5: { std::string a; s = "{ " + lit(c, depth - 1, a) + " }"; show = "[" + a + "]"; return s; }
		case 6: { std::string a, b; s = "{ " + lit(c, depth - 1, a); s += ", " + lit(c, 0, b) + " }"; show = "[" + a + "," + b + "]"; return s; }
		case 7: { std::string a, b; s = "{ \"p\": " + lit(c, depth - 1, a); s += ", 4: " + lit(c, 0, b) + " }"; show = "{\"p\":" + a + ",4:" + b + "}"; { std::vector<std::string> kv = { "\"p\":" + a, "4:" + b }; std::sort(kv.begin(), kv.end()); show = "{" + kv[0] + "," + kv[1] + "}"; } return s; }
	}
	return s;
}
static void literals(Ctx& c) {
	int n = 1 + c.choose(2), pl = c.choose(5); std::string s = "{ ", show = "["; for (int i = 0; i < n; ++i) { std::string x; s += (i ? ", " : "") + lit(c, i ? 1 : 2, x); show += (i ? "," : "") + x; if (i == 0) c.split(); } s += " }"; show += "]";
	std::string A = plExpr[pl], b = A + " = " + s + "; out(" + A + "); gv = 40; out(" + A + "); var cp = " + A + "[0]; " + A + "[0] = 1; out(cp); ";
	std::string first = show.substr(1); // rendering of element 0
	{ int d = 0; size_t i = 1; for (; i < show.size(); ++i) { if (show[i] == '[' || show[i] == '{') ++d; if (show[i] == ']' || show[i] == '}') { if (!d) break; --d; } if (show[i] == ',' && !d) break; } first = show.substr(1, i - 1); }
	c.transition(); check(c, wrapPlace(pl, "gv = 41; ", b), show + ";" + show + ";" + first + ";", "lit:" + s);
}
// ---- strings as read-only character arrays ----------------------------------
static void strings(Ctx& c) {
	int len = c.choose(6), idx = c.choose(8), form = c.choose(4), pl = c.choose(NPL); c.split(); std::string t = std::string("hello!").substr(0, len), A = plExpr[pl];
	std::string b, w; std::string idxs = sf("%d", idx); if (form == 1) { b += sf("gv = %d; ", idx); idxs = "gv"; }
	b += form == 2 ? "gv = " + A + "; for ( var ch : gv ) { out(ch); } " : form == 3 ? "out(" + A + "._count); " : "out(" + A + "[" + idxs + "]); ";
	if (form == 2) for (char ch : t) w += sf("%d;", ch); else if (form == 3) w = sf("%d;", len); else { if (idx >= len) throw Skip(); w = sf("%d;", t[idx]); }
	c.transition(); check(c, wrapPlace(pl, A + " = \"" + t + "\"; ", b + "out(" + A + "); "), w + "\"" + t + "\";", sf("str:%d:%d:%d:%d", len, idx, form, pl));
}
// ---- an index outside the container reads 0 and writes nothing, whatever is indexed ----
static void badIndex(Ctx& c) {
	struct K { const char* init; const char* show; bool hash, str; };
	static const K kinds[] = { { "{ 1, 2 }", "[1,2]", false, false }, { "7", "7", false, false }, { "1.5", "f1.5", false, false }, { "\"str\"", "\"str\"", false, true }, { "{ 5:6, \"k\":7 }", "{\"k\":7,5:6}", true, false }, { "0", "0", false, false } };
	static const char* idx[] = { "-1", "-2", "-2147483647", "2097152", "2147483647", "300000000", "1.5", "-0.5" };
	static const char* forms[] = { "out(@[#]); ", "@[#] = 9; ", "@[#] += 3; ", "@[#]++; ", "lv = @[#]; out(lv); ", "@[#] = \"s\"; ", "if ( @[#] ) { out(1); } else { out(2); } ", "out(@[#] + 1); ", "out(id(@[#])); " };
	static const char* wants[] = { "0;", "", "", "", "0;", "", "2;", "1;", "0;" };
	int pl = c.choose(NPL), k = c.choose(6), i = c.choose(8), f = c.choose(9), viaVar = c.choose(3); c.split(); const K& K0 = kinds[k];
	bool fl = i >= 6; if (K0.hash && !fl) throw Skip(); if (K0.str && f >= 1 && f <= 3) throw Skip(); if (K0.str && f == 5) throw Skip();
	std::string A = plExpr[pl], I = idx[i], pre; if (viaVar == 1) { pre = "gi = " + I + "; "; I = "gi"; } else if (viaVar == 2) { pre = "gi = " + I + "; "; I = "(gi + 0)"; }
	std::string b = pre; { std::string t = forms[f]; size_t p; while ((p = t.find('@')) != std::string::npos) t.replace(p, 1, A); while ((p = t.find('#')) != std::string::npos) t.replace(p, 1, I); b += t; }
	b += "out(" + A + "); "; std::string src = "var gi = 0; function id(x) { return x; }\n" + wrapPlace(pl, A + " = " + K0.init + "; ", b), w = std::string(wants[f]) + K0.show + ";";
	std::string id = sf("bad:%d:%d:%d:%d:%d", pl, k, i, f, viaVar); c.id(id); c.transition(); check(c, src, w, id);
}
// a declared size, written every way: the array has that many zeroes, every time the declaration is executed
static void declared(Ctx& c) {
	struct Sz { const char* txt; int n; }; // n < 0: not a size, the variable is left without elements
	static const Sz sz[] = { { "0", 0 }, { "1", 1 }, { "3", 3 }, { "127", 127 }, { "128", 128 }, { "300", 300 }, { "40000", 40000 }, { "gn", 3 }, { "ln", 4 }, { "pn", 5 }, { "gn + 1", 4 }, { "ln - 1", 3 }, { "pn * gn", 15 }, { "id(gn)", 3 }, { "gs.m", 6 }, { "ge[1]", 2 }, { "gh.k", 7 }, { "-1", -1 }, { "gneg", -1 }, { "0 - gn", -1 }, { "gf", -1 }, { "2.5", -1 }, { "\"s\"", -1 }, { "gstr", -1 }, { "ge", -1 }, { "gone", 0 } };
	int k = c.choose(26), place = c.choose(2), again = c.choose(3); c.split(); const Sz& S = sz[k];
	if (!place && (!strncmp(S.txt, "ln", 2) || !strncmp(S.txt, "pn", 2))) throw Skip();
	std::string pre = "struct S { var m; }; var gn = 3; var gneg = -4; var gf = 3.0; var gstr = \"abc\"; var gone; var gs = new S(); gs.m = 6; var ge[] = { 1, 2, 3 }; var gh = { \"k\" : 7 }; function id(x) { return x; }\n", b, w;
	std::string use = "out(a._count); "; if (S.n > 0) use += sf("out(a[0], a[%d]); a[0] = 5; a[%d] = 6; out(a._count, a[0] + a[%d]); ", S.n - 1, S.n - 1, S.n - 1);
	std::string one = S.n > 0 ? sf("%d;0 0;%d %d;", S.n, S.n, S.n == 1 ? 12 : 11) : "0;";
	if (again == 0) { b = sf("var a[%s]; ", S.txt) + use; w = one; }
	else if (again == 1) { b = sf("for ( var i = 0; i < 3; ++i ) { var a[%s]; ", S.txt) + use + "} "; w = one + one + one; }
	else { if (S.n < 0) throw Skip(); b = sf("var a = { 7, 8 }; var q = a; var a[%s]; ", S.txt) + use + "out(q); "; w = one + "[7,8];"; }
	std::string src = pre + (place ? "function t(pn) { var ln = 4; " + b + "}\nt(5);\n" : b), id = sf("decl:%s:%d:%d", S.txt, place, again);
	c.id(id); c.transition(); check(c, src, w, id);
}
// an element named as a statement of its own: looked at, the container stays what it was
static void looked(Ctx& c) {
	static const char* ix[] = { "0", "1", "200", "gi", "li", "gi + 1", "\"k\"", "gk", "id(1)", "1.5", "-1" };
	int h = c.choose(3), i = c.choose(11), place = c.choose(2); c.split(); if (!place && i == 4) throw Skip(); if (i == 2) throw Skip(); // reading past the end extends the array
	static const char* init[] = { "{ 4, 5, 6 }", "{ \"k\" : 4, 1 : 5, 0 : 6, 2 : 7 }", "{ 9, { 8 }, \"t\" }" }; static const char* show[] = { "4 5 3", "6 5 4", "9 [8] 3" };
	if (h == 1 && i >= 9) throw Skip();
	std::string b = sf("var a = %s; a[%s]; a[%s]; out(a[0], a[1], a._count); ", init[h], ix[i], ix[i]);
	std::string src = "var gi = 1; var gk = \"k\"; function id(x) { return x; }\n" + std::string(place ? "function t() { var li = 1; " + b + "}\nt();\n" : b), id = sf("look:%d:%d:%d", h, i, place);
	if (h != 1 && (i == 6 || i == 7)) throw Skip(); // a string is no index of an array
	c.id(id); c.transition(); check(c, src, std::string(show[h]) + ";", id);
}
// edits of any width anywhere in arrays of every size class: pairs of insert / remove / truncate / push / pop / growth against a sequence
static void wide(Ctx& c) {
	static const int sizes[] = { 0, 1, 2, 5, 8, 16, 17, 64, 200 }, cnts[] = { 1, 2, 3, 4, 5, 8, 9, 17, 100 };
	int n0 = c.pick(sizes), kind = c.choose(2), len = 2; Vec m; std::string b = kind ? "var a[]; for ( var i = 0; i < " : "var a[]; var i; for ( i = 0; i < ";
	b += sf("%d; ++i ) { list::push_back(a, %s); } ", n0, kind ? "\"s\" + i" : "1000 + i"); for (int i = 0; i < n0; ++i) m.push_back(kind ? sf("\"s%d\"", i) : sf("%d", 1000 + i)); std::string key = sf("wide:%d:%d", n0, kind), w;
	for (int s = 0; s < len; ++s) {
		int o = c.choose(9), n = (int)m.size(); static const int rel[] = { 0, 1, -2, -1, 0 }; int wi = o < 4 ? c.choose(5) : 0, where = wi == 2 ? n / 2 : wi == 3 ? n - 1 : wi == 4 ? n : rel[wi]; if (where < 0 || where > n || (wi == 1 && n < 2) || (wi == 2 && n < 4) || (wi == 3 && n < 3) || (wi == 4 && n < 1)) throw Skip();
		std::string v = kind ? sf("\"n%d\"", s) : sf("%d", 7 + s); int k = o < 2 ? (c.thorough() || !s ? c.pick(cnts) : cnts[c.choose(3) * 3 + 1]) : 0; if (s == 0) c.split();
		key += sf(":%d,%d,%d", o, where, k);
		switch (o) {
		case 0: b += sf("array::insert(a, %d, %d); ", where, k); m.insert(m.begin() + where, k, "0"); break;
		case 1: if (where >= n) throw Skip(); b += sf("array::remove(a, %d, %d); ", where, k); m.erase(m.begin() + where, m.begin() + std::min(n, where + k)); break;
		case 2: b += sf("array::truncate(a, %d); ", where); m.resize(where); break;
		case 3: { int at = where + (wi == 4 ? 40 : 0); b += sf("a[%d] = ", at) + v + "; "; if ((int)m.size() <= at) m.resize(at + 1, "0"); m[at] = v; break; }
		case 4: b += "list::push(a, " + v + "); "; m.insert(m.begin(), v); break;
		case 5: b += "list::push_back(a, " + v + "); "; m.push_back(v); break;
		case 6: if (!n) throw Skip(); b += "out(list::pop(a)); "; w += m[0] + ";"; m.erase(m.begin()); break;
		case 7: if (!n) throw Skip(); b += "out(list::pop_back(a)); "; w += m.back() + ";"; m.pop_back(); break;
		case 8: if (!n) throw Skip(); b += sf("a._remove(%d); ", n / 2); m.erase(m.begin() + n / 2); break;
		}
	}
	w += sf("%d;", (int)m.size()); b += "out(a._count); for ( var e : a ) { out(e); } "; for (auto& e : m) w += e + ";";
	c.id(key); c.transition(); check(c, b, w, key);
}
// every width of index, written as a literal, a variable or an expression: the same element, and not its neighbours
static void indexes(Ctx& c) {
	static const int ix[] = { 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 4095, 4096, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, -1, -128, -129, -255, -32768, -32769, 2147483646, -2147483647 };
	static const char* forms[] = { "", "@[#] += 3; ", "@[#] = @[#] + 3; ", "@[#]++; ++@[#]; @[#]++; ", "gv = @[#]; @[#] = gv + 3; ", "if ( @[#] == 77 ) { @[#] = 80; } ", "@[#] -= -3; ", "@[#] = 3 + @[#]; " };
	int pl = c.choose(NPL), hash = c.choose(2), v = c.pick(ix), wr = c.choose(3), rd = c.choose(3), f = c.choose(8); c.split(); if (!hash && (v < 0 || v > 70000)) throw Skip(); if (!c.thorough() && v > 40000 && !hash && pl > 1) throw Skip();
	auto at = [&](int form) { return form == 0 ? sf("%d", v) : form == 1 ? std::string("gi") : std::string("(gi + gz)"); };
	std::string A = plExpr[pl], t = forms[f]; size_t p; while ((p = t.find('@')) != std::string::npos) t.replace(p, 1, A); while ((p = t.find('#')) != std::string::npos) t.replace(p, 1, at(rd));
	std::string b = A + "[gi + 1] = 78; " + A + "[gi - 1] = 76; " + A + "[" + at(wr) + "] = 77; " + t + "out(" + A + "[" + at(rd) + "]); lv = " + A + "[" + at(rd) + "]; out(lv, " + A + "[gi - 1], " + A + "[gi], " + A + "[gi + 1]); out(" + A + "._count); ";
	int r = f ? 80 : 77; std::string w = sf("%d;%d 76 %d 78;%d;", r, r, r, hash ? 4 : v + 2), id = sf("index:%d:%d:%d:%d:%d:%d", pl, hash, v, wr, rd, f);
	c.id(id); c.transition(); check(c, sf("var gz = 0; var gi = %d;\n", v) + wrapPlace(pl, A + (hash ? " = { \"k\" : 1 }; " : " = { 5 }; "), b), w, id);
}
// what was stored (as an item or as a key) is the value the variable had: changing the variable afterwards does not reach it
static void stored(Ctx& c) {
	struct Src { const char* e; const char* pre; bool fn; }; static const Src srcs[] = { { "gv", "", false }, { "lv", "", true }, { "pv", "", true }, { "ge[1]", "", false }, { "ge[gi]", "", false }, { "gk.k", "", false }, { "gk[\"k\"]", "", false }, { "gs.m", "", false }, { "le[0]", "", true }, { "lk.k", "", true }, { "ls.m", "", true } };
	struct Val { const char* lit; const char* show; const char* key; }; static const Val vals[] = { { "5", "5", "5" }, { "\"s\" + \"t\"", "\"st\"", "\"st\"" }, { "2.5", "f2.5", 0 }, { "{ 1, 2 }", "[1,2]", 0 }, { "70000", "70000", "70000" } };
	static const char* ops[] = { "list::push_back(C, S); ", "list::push(C, S); ", "queue::push(C, S); ", "stack::push(C, S); ", "C[1] = S; ", "C[3] = S; ", "C = { 0, S }; ", "array::insert(C, 1); C[1] = S; ", "hash::add(C, S, \"k\"); ", "hash::add(C, 1, S); ", "C[\"k\"] = S; ", "C.k = S; ", "C[S] = 1; ", "C = { \"k\" : S }; ", "C = { S : 1 }; ", "hash::add(C, S, S); ", "hash::add(C, S, 9); hash::add(C, 7, S); " };
	static const char* shows[] = { "[0,V]", "[V,0]", "[V,0]", "[V,0]", "[0,V]", "[0,0,0,V]", "[0,V]", "[0,V]", 0, 0, 0, 0, 0, 0, 0, 0, 0 };
	static const char* changes[] = { "S = 99; ", "S = \"changed\"; ", "S = { 3, 4 }; ", "S += S; ", "S++; ", "--S; ", "S = 0; q2 = \"t\" + gi; q2 = \"u\" + gi; " };
	int si = c.choose(11), v = c.choose(5), o = c.choose(17), ch = c.choose(7), place = c.choose(2), twice = c.choose(2); c.split(); bool fn = c.flag(); if (srcs[si].fn && !fn) throw Skip(); if (place && !fn) throw Skip(); if (ch >= 3 && ch <= 5 && (v == 3 || (v == 1 && ch > 3))) throw Skip(); const Val& V = vals[v]; bool hash = o >= 8, key = o == 9 || o == 12 || o >= 14; if (key && !V.key) throw Skip(); if (o == 14) throw Skip(); if (twice && (o == 6 || o == 13 || o == 14 || o == 7)) throw Skip();
	std::string C = place ? "lc" : "gc", S = srcs[si].e; auto sub = [&](std::string t) { std::string r; for (char k : t) r += k == 'C' ? C : k == 'S' ? S : std::string(1, k); return r; };
	std::string b = C + (hash ? " = { \"z\" : 0 }; " : " = { 0 }; ") + S + " = " + V.lit + "; " + sub(ops[o]) + sub(changes[ch]), w; if (twice) { b += S + " = " + V.lit + "; " + sub(ops[o]) + sub(changes[ch]); }
	std::string fixed; if (!hash) { b += "out(" + C + "); "; std::string t = shows[o]; if (twice) t = o == 0 ? "[0,V,V]" : o < 4 ? "[V,V,0]" : t; for (char k : t) w += k == 'V' ? V.show : std::string(1, k); w += ";"; }
	else { std::string k1 = o == 9 || o == 12 || o >= 14 ? V.lit : "\"k\"", at = C + "[" + k1 + "]"; if (o == 11) at = C + ".k"; int n = (o == 13 || o == 14 ? 1 : 2) + (o == 16); b += "out(" + at + ", " + C + "._count); " + (o == 11 ? std::string() : "for ( var k, var e : " + C + " ) { if ( k == (" + k1 + ") ) { out(k, e); } } "); std::string item = o == 9 || o == 12 || o == 14 ? "1" : o == 16 ? "7" : V.show; w = item + sf(" %d;", n) + (o == 11 ? "" : (key ? V.show : "\"k\"") + std::string(" ") + item + ";"); if (o == 16) { b += "out(" + C + "[9]); "; w += std::string(V.show) + ";"; } }
	std::string pre = "struct ST { var m; };\nvar gv = 0; var gi = 1; var ge[] = { 0, 0, 0 }; var gk = { \"k\" : 0 }; var gs = new ST(); var gc = 0; var q2 = 0;\n", src = pre + (fn ? "function t(pv) { var lv = 0; var le[] = { 0, 0 }; var lk = { \"k\" : 0 }; var ls = new ST(); var lc = 0; " + b + "}\nt(0);\n" : b), id = sf("stored:%d:%d:%d:%d:%d:%d:%d", si, v, o, ch, place, twice, (int)fn);
	c.id(id); c.transition(); check(c, src, w, id);
}
// the variables of a foreach are what was visited: changing the container does not change them, changing them does not change the container
static void visited(Ctx& c) {
	static const char* acts[] = { "", "A[K] = 99; ", "A[K] = \"n\" + gi; ", "e = 55; ", "e += e; ", "++e; ", "e--; ", "k = 77; ", "k += k; ", "++k; ", "e = \"z\" + gi; ", "A[KN] = 4; ", "for ( gi = 0; gi < 40; ++gi ) { A[gi * 7 + 200] = gi; } ", "A = 0; q = \"j\" + gi; q = { 1, 2, 3 }; ", "CL(A); ", "A[K] = { 8, 9 }; ", "B[0] = e; B[1] = k; e = 0; k = 0; e = B[0]; k = B[1]; " };
	struct V { const char* lit; const char* show; }; static const V vs[] = { { "5", "5" }, { "\"s\" + \"t\"", "\"st\"" }, { "2.5", "f2.5" }, { "70000", "70000" } };
	int hash = c.choose(2), v = c.choose(4), act = c.choose(17), two = c.choose(2), fn = c.choose(2), outer = c.choose(2), after = c.choose(2); c.split(); bool usesK = strstr(acts[act], "k ") || strstr(acts[act], "k;"); if (!two && usesK) throw Skip();
	const V& x = vs[v]; if (v == 1 && (act == 5 || act == 6)) throw Skip(); if (act == 7 && !two) throw Skip();
	std::string A = fn ? "la" : "ga", body, K = hash ? "7" : "0"; for (const char* p = acts[act]; *p; ++p) { if (!strncmp(p, "CL", 2)) { body += hash ? "hash::clear" : "array::clear"; ++p; } else if (!strncmp(p, "KN", 2)) { body += hash ? "1234" : "1"; ++p; } else if (*p == 'A') body += A; else if (*p == 'K') body += K; else if (*p == 'B') body += "bb"; else body += *p; }
	// one element: the loop runs once, whatever it does to the container (it is left by break where it would go on)
	std::string loop = std::string("for ( ") + (outer ? (two ? "k, e" : "e") : (two ? "var k, var e" : "var e")) + " : " + A + " ) { " + body + (after && outer ? "" : std::string("out(e") + (two ? ", k" : "") + "); ") + "break; } " + (after && outer ? std::string("q = \"w\" + gi; out(e") + (two ? ", k" : "") + "); " : ""); if (after && !outer) throw Skip();
	std::string init = std::string(A) + " = { " + (hash ? "7 : " : "") + x.lit + " }; "; if (hash && v == 1) init = A + " = { 7 : 0 }; " + A + "[7] = " + x.lit + "; "; std::string ev = x.show, kv = hash ? "7" : "0"; double d = v == 0 ? 5 : v == 2 ? 2.5 : 70000; auto num = [&](double y) { return v == 2 ? sf("f%g", y) : sf("%d", (int)y); };
	if (act == 3) ev = "55"; if (act == 4) ev = v == 1 ? "\"stst\"" : num(d + d); if (act == 5) ev = num(d + 1); if (act == 6) ev = num(d - 1); if (act == 7) kv = "77"; if (act == 8) kv = hash ? "14" : "0"; if (act == 9) kv = hash ? "8" : "1"; if (act == 10) ev = "\"z1\"";
	std::string w = ev + (two ? " " + kv : "") + ";", now = act == 1 ? "99" : act == 2 ? "\"n1\"" : act == 15 ? "[8,9]" : x.show; bool gone = act == 13 || act == 14; if (!gone) { loop += "out(" + A + "[" + K + "]); "; w += now + ";"; if (act < 11 || act > 12) { loop += "out(" + A + "._count); "; w += "1;"; } if (hash && act != 13) { loop += "for ( var k9, var e9 : " + A + " ) { if ( k9 == 7 ) { out(k9, e9); } } "; w += "7 " + now + ";"; } }
	std::string decl = "var q = 0; var bb[] = { 0, 0 }; " + std::string(outer ? (two ? "var k = 0; var e = 0; " : "var e = 0; ") : ""), src = "var gi = 1; var ga = 0;\n" + (fn ? "function t() { var la = 0; " + decl + init + loop + "}\nt();\n" : decl + init + loop), id = sf("visited:%d:%d:%d:%d:%d:%d:%d", hash, v, act, two, fn, outer, after);
	c.id(id); c.transition(); check(c, src, w, id);
}
MC_MAIN({ "visited", visited, false }, { "stored", stored, false }, { "indexes", indexes, false }, { "wide", wide, false }, { "declared", declared, false }, { "looked", looked, false }, { "arrays", arrays, false }, { "arrayEdges", arrayEdges, false }, { "hashes", hashes, false }, { "hashGrowth", hashGrowth, false }, { "sharing", sharing, false }, { "literals", literals, false }, { "strings", strings, false }, { "badIndex", badIndex, false })
